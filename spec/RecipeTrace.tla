----------------------------- MODULE RecipeTrace -----------------------------
(***************************************************************************)
(* Decides whether recorded histories of the real recipe parser are        *)
(* behaviours of the specification `Recipe`. Every history starts from a   *)
(* recipe whose tree is known. After the parse and after every operation,  *)
(* everything that a user can observe was recorded. The verdict is total:  *)
(* the set of clauses that an observation violates.                        *)
(***************************************************************************)
EXTENDS Recipe, Json, IOUtils

Input == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Input.traces
Chk == Range(Input.chk)
Refs == Input.refs

VARIABLES tr, i, st, dead
vars == <<tr, i, st, dead>>

SameSet(a, b) == Range(a) = Range(b)
NoDup(a) == Cardinality(Range(a)) = Len(a)

\* A null value is written as `null`, but an empty key denotes null too: the only value with two spellings.
RECURSIVE HasNullScalar(_)
HasNullScalar(n) == \/ n.t = "sca" /\ n.v = "z:"
                    \/ \E j \in 1..Len(n.c) : HasNullScalar(n.c[j])

GetOk(root, g) ==
  LET n == Lookup(root, g.p)
  IN /\ g.has = (n # None)
     /\ g.ok = (n # None)
     /\ g.dflt = (n = None)
     /\ n # None /\ n[1].t # "nul" => SameData(g.d, Data(n[1]))

AtOk(root, a) ==
  LET n == Lookup(root, a.p)
  IN a.s = IF n = None \/ LineM(root, a.p).s = "" THEN "" ELSE "[" \o LineM(root, a.p).s \o "]"

ClauseOk(c, s, o) ==
  CASE c = "text" -> o.text = RText(s)
    [] c = "fix" -> (HasNullScalar(s.root) \/ o.fix = o.text)
    [] c = "obj" -> SameData(o.obj, Data(s.root))
    [] c = "yaml" -> SameData(o.yaml, Data(s.root))
    [] c = "paths" -> o.paths = ValuePaths(s.root)
    [] c = "get" -> \A j \in 1..Len(o.get) : GetOk(s.root, o.get[j])
    [] c = "sels" -> /\ NoDup([j \in 1..Len(o.sels) |-> o.sels[j].s])
                     /\ { o.sels[j].s : j \in 1..Len(o.sels) } = { "[" \o x \o "]" : x \in Range(Selectors(s.root)) }
                     /\ \A x \in Range(Selectors(s.root)), j \in 1..Len(o.sels) :
                          o.sels[j].s = "[" \o x \o "]" => o.sels[j].ps = SelPaths(s.root, x)
    [] c = "at" -> \A j \in 1..Len(o.at) : AtOk(s.root, o.at[j])
    [] c = "coms" -> SameSet(o.coms, CommentsTable(s.root)) /\ NoDup(o.coms)
    [] c = "mod" -> o.mod = s.mod
    [] c = "diff" -> o.diff = (IF s.mod THEN RText(s) ELSE <<>>)
    [] c = "ident" -> o.ident = TRUE
    [] c = "vars" -> /\ o.vars = [j \in 1..Len(Vars(s)) |-> [k |-> Vars(s)[j].k, v |-> Vars(s)[j].v]]
                     /\ o.absent = TRUE
    [] c = "refs" -> \A j \in 1..Len(o.refs) :
                       o.refs[j].ps = IF VarIdx(Vars(s), o.refs[j].k) = 0 THEN <<>>
                                      ELSE VarRefs(s.root, Refs, o.refs[j].k)
    [] c = "find" -> \A j \in 1..Len(o.find) : o.find[j].ps = FindValue(s.root, o.find[j].v)
    [] c = "search" -> \A j \in 1..Len(o.search) : o.search[j].ps = Search(s.root, o.search[j])
    [] OTHER -> TRUE

Fails(s, o, ret, want) == { c \in Chk : c # "ret" /\ ~ClauseOk(c, s, o) }
                          \cup (IF "ret" \in Chk /\ ret # want THEN {"ret"} ELSE {})

\* What the failing observation and the specification disagree on.
Detail(cl, s, o) ==
  [get |-> IF "get" \in cl THEN { o.get[j] : j \in { x \in 1..Len(o.get) : ~GetOk(s.root, o.get[x]) } } ELSE {},
   at |-> IF "at" \in cl THEN { o.at[j] : j \in { x \in 1..Len(o.at) : ~AtOk(s.root, o.at[x]) } } ELSE {},
   sels |-> IF "sels" \in cl THEN { [s |-> x, ps |-> SelPaths(s.root, x)] : x \in Range(Selectors(s.root)) } ELSE {},
   coms |-> IF "coms" \in cl THEN CommentsTable(s.root) ELSE <<>>,
   paths |-> IF "paths" \in cl THEN ValuePaths(s.root) ELSE <<>>,
   vars |-> IF "vars" \in cl THEN Vars(s) ELSE <<>>,
   search |-> IF "search" \in cl
              THEN { [o.search[j] EXCEPT !.ps = Search(s.root, o.search[j])]
                       : j \in { x \in 1..Len(o.search) : o.search[x].ps # Search(s.root, o.search[x]) } } ELSE {},
   find |-> IF "find" \in cl THEN { o.find[j] : j \in { x \in 1..Len(o.find) : o.find[x].ps # FindValue(s.root, o.find[x].v) } } ELSE {}]

Report(t, j, cl, s, o, want) ==
  cl # {} => PrintT("FAIL " \o ToJson([tr |-> t, i |-> j, cl |-> cl, want |-> want,
                                       text |-> RText(s), detail |-> Detail(cl, s, o)]))

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ st = Traces[tr].init
  /\ LET f == Fails(Traces[tr].init, Traces[tr].obs, "", "")
     IN Report(tr, 0, f, Traces[tr].init, Traces[tr].obs, "") /\ dead = (f # {})

Next ==
  /\ ~dead
  /\ i < Len(Traces[tr].steps)
  /\ LET e == Traces[tr].steps[i + 1]
         r == Apply(st, e.op)
         f == Fails(r.st, e.obs, e.ret, r.ret)
     IN /\ Report(tr, i + 1, f, r.st, e.obs, r.ret)
        /\ st' = r.st
        /\ dead' = (f # {})
  /\ i' = i + 1
  /\ UNCHANGED tr

Spec == Init /\ [][Next]_vars
=============================================================================
