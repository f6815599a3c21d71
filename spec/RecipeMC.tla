------------------------------ MODULE RecipeMC ------------------------------
(***************************************************************************)
(* All behaviours of the specification `Recipe` from a few small recipes   *)
(* with every operation of a finite set, up to a depth. The behaviours are *)
(* printed and replayed on the real parser. The properties of the          *)
(* specification itself are checked on every transition.                   *)
(***************************************************************************)
EXTENDS Recipe, Json, IOUtils

Input == JsonDeserialize(IOEnv.MC_FILE)
Inits == Input.inits
Ops == Input.ops         \* per initial recipe: the operations
Depth == Input.depth

VARIABLES ini, st, hist, last
vars == <<ini, st, hist, last>>

-----------------------------------------------------------------------------
(* The part of the operations that the properties speak of. The rest is described by the known findings. *)

ValAt(root, p) == Lookup(root, p)
NumKids(n) == VirtLen(n.c)
HasComs(root) == \E j \in 1..Len(All(root)) : \E k \in 1..Len(All(root)[j].n.c) : IsCom(All(root)[j].n.c[k])

\* The removal of the last member of a collection
LastMember(root, p) ==
  /\ Exists(root, p) /\ NumKids(Lookup(root, Front(p))[1]) = 1
  /\ (Len(p) = 1 \/ IsSeqMember(root, Front(p)) \/ HasComs(root))

RECURSIVE HasNull(_)
HasNull(n) == n.t = "nul" \/ (n.t = "sca" /\ n.v = "z:") \/ \E j \in 1..Len(n.c) : HasNull(n.c[j])
IsEmptyColl(n) == n.t = "sca" /\ n.v \in {"e:[]", "e:{}"}
ListPosition(root, p) == Last(p) = "-" \/ (Exists(root, Front(p)) /\ Lookup(root, Front(p))[1].t = "seq")
BadAdd(root, p) ==
  LET par == Lookup(root, Front(p))
  IN par # None /\ (IsEmptyColl(par[1]) \/ (par[1].t = "nul" /\ Last(p) \in Digits))
ListOk(n) == n.t \in {"sca", "map"} /\ ~IsEmptyColl(n)

PatchInDomain(root, op) ==
  /\ op.p # <<>>
  /\ op.o = "add" => ~BadAdd(root, op.p) /\ (ListPosition(root, op.p) => ListOk(op.val))
  /\ op.o = "replace" => (ListPosition(root, op.p) => ListOk(op.val))
  /\ op.o = "remove" => ~LastMember(root, op.p)
  /\ op.o = "test" => (Exists(root, op.p) => ~HasNull(Lookup(root, op.p)[1]))
  /\ op.o \in {"move", "copy"} =>
       /\ ~BadAdd(root, op.p)
       /\ Exists(root, op.from) =>
            LET n == Lookup(root, op.from)[1]
            IN /\ (ListPosition(root, op.p) => ListOk(n))
               /\ (op.o = "move" => ~LastMember(root, op.from))
InDomain(s, op) == op.op = "patch" => PatchInDomain(s.root, op)

-----------------------------------------------------------------------------
Init ==
  /\ ini \in 1..Len(Inits)
  /\ st = Inits[ini]
  /\ hist = <<>>
  /\ last = ""

Step(k) ==
  LET op == Ops[ini][k] r == Apply(st, op)
  IN /\ InDomain(st, op)
     /\ st' = r.st
     /\ last' = r.ret
     /\ hist' = Append(hist, [k |-> k, ret |-> r.ret])
     /\ UNCHANGED ini
     /\ (Len(hist) + 1 = Depth \/ Input.all) =>
          PrintT("B " \o ToJson([ini |-> ini, hist |-> hist', text |-> RText(r.st), mod |-> r.st.mod,
                          vars |-> [j \in 1..Len(Vars(r.st)) |-> [k |-> Vars(r.st)[j].k, v |-> Vars(r.st)[j].v]]]))

Next == Len(hist) < Depth /\ \E k \in 1..Len(Ops[ini]) : Step(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the specification *)

RECURSIVE WellFormed(_)
WellFormed(n) ==
  /\ n.t \in {"map", "seq", "sca", "nul", "blk", "lin", "com"}
  /\ n.t \in {"sca", "nul", "lin", "com"} => n.c = <<>>
  /\ n.t \in {"map", "seq"} => n.c # <<>>
  /\ n.t = "map" => \A a, b \in 1..Len(n.c) :
       (~IsCom(n.c[a]) /\ ~IsCom(n.c[b]) /\ n.c[a].k = n.c[b].k) => a = b
  /\ \A j \in 1..Len(n.c) : WellFormed(n.c[j])
WF == WellFormed(st.root)

\* What is written can be addressed: every value is found at its own path, once.
Addressable ==
  LET ps == Map2(All(st.root), LAMBDA x : x.p)
  IN \A a, b \in 1..Len(ps) : (ps[a] = ps[b] => a = b) /\ Lookup(st.root, ps[a]) # None

OpOf == Ops[ini][hist'[Len(hist')].k]

\* A failed operation, a test and a read change nothing.
Atomic ==
  (last' \notin {"T", "none"} /\ OpOf.op # "selector_rm") \/ (OpOf.op = "patch" /\ OpOf.o = "test") \/ OpOf.op = "read"
  => st' = st

\* Operations on a path do not change what is found elsewhere. (Members that follow in the same list are renumbered.)
Unrelated(p, q) ==
  LET par == Front(p) IN ~IsPfx(par, q)
RECURSIVE NodeEq(_, _)
NodeEq(a, b) == a = b
Touched(op) == IF op.op = "patch" /\ op.o = "move" THEN <<op.p, op.from>> ELSE <<op.p>>
FrameOk ==
  LET op == OpOf
  IN (op.op \in {"patch", "selector_add", "selector_rm", "comment"} /\ op.p # <<>>) =>
       \A j \in 1..Len(All(st.root)) :
         LET q == All(st.root)[j].p
         IN (\A t \in 1..Len(Touched(op)) :
               LET tp == Touched(op)[t] IN
                 /\ ~IsPfx(q, tp) /\ ~IsPfx(tp, q)
                 \* siblings keep their place in mappings, and before the place of the change in lists
                 /\ \A n \in 1..Len(q) :
                      (n <= Len(tp) /\ SubSeq(q, 1, n - 1) = SubSeq(tp, 1, n - 1))
                         => (q[n] = tp[n] \/ Lookup(st.root, SubSeq(q, 1, n - 1))[1].t = "map"))
            => Lookup(st'.root, q) = Lookup(st.root, q)

\* What was written is read back.
ReadBack ==
  LET op == OpOf
  IN (op.op = "patch" /\ op.o \in {"add", "replace"} /\ last' = "T" /\ Last(op.p) # "-") =>
       /\ Exists(st'.root, op.p)
       /\ SameData(Data(Lookup(st'.root, op.p)[1]), Data(op.val))
Copied ==
  LET op == OpOf
  IN (op.op = "patch" /\ op.o \in {"move", "copy"} /\ last' = "T" /\ Last(op.p) # "-" /\ op.p # op.from) =>
       SameData(Data(Lookup(st'.root, op.p)[1]), Data(Lookup(st.root, op.from)[1]))

\* Every selector that is listed is on a line of the text, and the other way around.
SelOnLine ==
  LET op == OpOf
  IN (op.op = "selector_add" /\ last' = "none") =>
       LET m == LineM(st'.root, op.p) old == LineM(st.root, op.p)
       IN m.s = (IF old.s = "" \/ op.mode = "REPLACE" THEN op.s
                 ELSE old.s \o (IF op.mode = "AND" THEN " and " ELSE " or ") \o op.s)
SelRemoved ==
  LET op == OpOf
  IN (op.op = "selector_rm" /\ Exists(st.root, op.p)) =>
       /\ LineM(st'.root, op.p).s = "" /\ LineM(st'.root, op.p).x = LineM(st.root, op.p).x
SelDataFree == OpOf.op \in {"selector_add", "selector_rm", "comment"} => SameData(Data(st'.root), Data(st.root))
ModGrows == st.mod => st'.mod
ModIff == (~st.mod /\ st'.root # st.root) => st'.mod

Props == [][Atomic /\ FrameOk /\ ReadBack /\ Copied /\ SelOnLine /\ SelRemoved /\ SelDataFree /\ ModGrows /\ ModIff]_vars
=============================================================================
