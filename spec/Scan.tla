-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* Dependencies of a Python project.                                       *)
(* A file is [dir |-> path of its directory, name, bad |-> can not be      *)
(* parsed, imports]. An import is [from |-> BOOLEAN, level |-> dots,       *)
(* names |-> dotted names as sequences]; `from a.b import c` has the one   *)
(* name <<"a", "b">>.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowMap == [ch \in { SubSeq(Upper, i, i) : i \in 1..26 } |-> LET i == CHOOSE i \in 1..26 : SubSeq(Upper, i, i) = ch IN SubSeq(Lower, i, i)]
RECURSIVE ToLower(_)
ToLower(s) == IF s = "" THEN "" ELSE LET c == SubSeq(s, 1, 1) IN (IF c \in DOMAIN LowMap THEN LowMap[c] ELSE c) \o ToLower(SubSeq(s, 2, Len(s)))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

IsPy(f) == Ends(f.name, ".py")
IsTest(f) == LET n == ToLower(f.name) IN Starts(n, "test_") \/ Ends(n, "_test.py")

\* The modules and packages at the top of the project
TopModules(fs) ==
  { SubSeq(f.name, 1, Len(f.name) - 3) : f \in { g \in fs : g.dir = <<>> /\ IsPy(g) /\ g.name # "__init__.py" } }
  \cup { f.dir[1] : f \in { g \in fs : Len(g.dir) = 1 /\ g.name = "__init__.py" } }

Renamed == ("git" :> "gitpython") @@ ("yaml" :> "pyyaml") @@ ("PIL" :> "pillow") @@ ("sklearn" :> "scikit-learn") @@ ("tables" :> "pytables")
           @@ ("cv" :> "py-opencv") @@ ("cv2" :> "py-opencv") @@ ("OpenGL" :> "pyopengl")
Package(m) == IF m \in DOMAIN Renamed THEN Renamed[m] ELSE m

Modules(f) == UNION { IF f.imports[i].level > 0 THEN {} ELSE { f.imports[i].names[j][1] : j \in 1..Len(f.imports[i].names) } : i \in 1..Len(f.imports) }
External(fs, stdlib, f) == { Package(m) : m \in Modules(f) \ (stdlib \cup TopModules(fs)) }

Dep(n, s) == [name |-> n, section |-> s]
\* fs: the set of files of a project
Scanned(fs) == { f \in fs : IsPy(f) }
Readable(fs) == { f \in Scanned(fs) : ~f.bad }
Run(fs, stdlib) == UNION { External(fs, stdlib, f) : f \in { g \in Readable(fs) : ~IsTest(g) } }
Tests(fs, stdlib) == UNION { External(fs, stdlib, f) : f \in { g \in Readable(fs) : IsTest(g) } }
PyDeps(fs, stdlib) ==
  { Dep(n, "RUN") : n \in Run(fs, stdlib) \cup {"python"} } \cup {Dep("python", "HOST")}
  \cup { Dep(n, "TESTS") : n \in Tests(fs, stdlib) \ Run(fs, stdlib) }
Unreadable(fs) == { f \in Scanned(fs) : f.bad }

-----------------------------------------------------------------------------
(* pyproject.toml: state "missing", "broken", "noproject" or "ok"; deps and groups of optional dependencies [text, name] *)
TomlDeps(c) ==
  IF c.state # "ok" THEN {}
  ELSE { [text |-> c.deps[i].text, name |-> c.deps[i].name, section |-> "RUN"] : i \in 1..Len(c.deps) }
       \cup UNION { { [text |-> c.groups[g][i].text, name |-> c.groups[g][i].name, section |-> "RUN_CONSTRAINTS"] : i \in 1..Len(c.groups[g]) } : g \in 1..Len(c.groups) }
\* Number of messages: exceptions, errors, warnings
TomlMsgs(c) == CASE c.state \in {"missing", "broken"} -> <<1, 0, 0>> [] c.state = "noproject" -> <<0, 1, 0>> [] OTHER -> <<0, 0, 0>>
=============================================================================
