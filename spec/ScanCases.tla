------------------------------ MODULE ScanCases ------------------------------
(* Decides recorded scans of Python projects. A project is scanned several times, and may change in between. *)
EXTENDS Scan, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES_FILE)
Cases == Input.cases
Stdlib == Range(Input.stdlib)
VARIABLE k
\* Every scan adds its messages to those of the scans before.
RECURSIVE BadCount(_, _)
BadCount(scans, n) == IF n = 0 THEN 0 ELSE BadCount(scans, n - 1) + Cardinality(Unreadable(Range(scans[n].files)))
PyBad(c) ==
  UNION { LET s == c.scans[n]  fs == Range(s.files)  o == s.obs
          IN { x \in {"deps", "messages", "named"} :
               ~ CASE x = "deps" -> Range(o.deps) = PyDeps(fs, Stdlib) /\ Cardinality(Range(o.deps)) = Len(o.deps)
                   [] x = "messages" -> o.msgs = <<BadCount(c.scans, n), 0, 0>>
                   \* each unreadable file is named in a message
                   [] x = "named" -> Range(o.named) = { Append(f.dir, f.name) : f \in Unreadable(fs) } } : n \in 1..Len(c.scans) }
TomlBad(c) ==
  LET o == c.obs
  IN { x \in {"deps", "messages", "named"} :
       ~ CASE x = "deps" -> Range(o.deps) = TomlDeps(c) /\ Cardinality(Range(o.deps)) = Len(o.deps)
           [] x = "messages" -> o.msgs = TomlMsgs(c)
           [] x = "named" -> o.named = (c.state # "ok") }
Bad(c) == IF c.kind = "py" THEN PyBad(c) ELSE TomlBad(c)
Init == /\ k \in 1..Len(Cases)
        /\ LET f == Bad(Cases[k])
           IN f # {} => PrintT("FAIL " \o ToJson([k |-> k, want |-> [fails |-> f,
                deps |-> IF Cases[k].kind = "py" THEN [n \in 1..Len(Cases[k].scans) |-> SetToSeq(PyDeps(Range(Cases[k].scans[n].files), Stdlib))] ELSE SetToSeq(TomlDeps(Cases[k]))]]))
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
=============================================================================
