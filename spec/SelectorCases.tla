--------------------------- MODULE SelectorCases ---------------------------
(* Decides recorded uses of selector parsers, platform look-ups and build configuration files. *)
EXTENDS Selector, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES_FILE)
VARIABLE k
Set(s) == { s[i] : i \in 1..Len(s) }

\* Build configuration: [val |-> value, sel |-> tokens or <<>>, has |-> selector is there]
FirstApplicable(es, platform) ==
  LET S == { i \in 1..Len(es) : ~es[i].has \/ Applies(es[i].ts, platform) }
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
VarOf(c, name) == LET S == { i \in 1..Len(c.vars) : c.vars[i].k = name } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
CbcWant(c, q) ==
  LET v == VarOf(c, q.var)
  IN IF v = 0 THEN (IF q.dflt THEN "default" ELSE "KeyError")
     ELSE LET e == FirstApplicable(c.vars[v].es, q.plat)
          IN IF e = 0 THEN (IF q.dflt THEN "default" ELSE "ValueError") ELSE c.vars[v].es[e].val

Want(c) ==
  CASE c.kind = "expr" -> [sel |-> Selected(c.ts), apply |-> { p \in Platforms : Applies(c.ts, p) }, none |-> TRUE]
    [] c.kind = "lookup" -> [os |-> ByOS(c.name), arch |-> ByArch(c.name)]
    [] c.kind = "eq" -> [eq |-> (c.ver1 = c.ver2 /\ c.ts1 = c.ts2)]
    [] c.kind = "all" -> [platforms |-> Platforms, os |-> OSNames, arch |-> ArchNames]
    [] c.kind = "cbc" -> [names |-> [i \in 1..Len(c.vars) |-> c.vars[i].k],
                          res |-> [i \in 1..Len(c.q) |-> CbcWant(c, c.q[i])]]
Got(c) ==
  CASE c.kind = "expr" -> [sel |-> Set(c.sel), apply |-> Set(c.apply), none |-> c.none]
    [] c.kind = "lookup" -> [os |-> Set(c.os), arch |-> Set(c.arch)]
    [] c.kind = "eq" -> [eq |-> c.eq]
    [] c.kind = "all" -> [platforms |-> Set(c.platforms), os |-> Set(c.os), arch |-> Set(c.arch)]
    [] c.kind = "cbc" -> [names |-> c.names, res |-> [i \in 1..Len(c.q) |-> c.q[i].res]]
Ok(c) == c.text_ok /\ Want(c) = Got(c)
Init == /\ k \in 1..Len(Cases)
        /\ ~Ok(Cases[k]) => PrintT("FAIL " \o ToJson([k |-> k, want |-> Want(Cases[k])]))
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
=============================================================================
