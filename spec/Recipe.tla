------------------------------- MODULE Recipe -------------------------------
(***************************************************************************)
(* State and transitions of an editable conda recipe file: a tree of keys, *)
(* list members, values, multi-line values and comment lines; the table of *)
(* variables of the recipe (V0: Jinja `set` header, V1: `/context`); and   *)
(* the modification flag.                                                  *)
(*                                                                         *)
(* Every node is a record [t, k, v, r, m, c]:                              *)
(*  t  "map" "seq" "sca" "nul" "blk" "lin" "com"                           *)
(*  k  key, when the node is a member of a mapping                         *)
(*  v  type-tagged value ("s:foo" "i:42" "f:1.5" "b:true" "z:"             *)
(*     "e:[]" "e:{}"); for "blk" the value that the block denotes, without *)
(*     trailing newlines                                                   *)
(*  r  text of the value as it is rendered (for "blk" the marker, for      *)
(*     "lin"/"com" the whole line)                                         *)
(*  m  comment found at the end of the line: [r |-> raw text,              *)
(*     s |-> selector without its brackets or "", x |-> the rest]          *)
(*  c  children ("map", "seq"), lines ("blk") or <<>>                      *)
(* "com" nodes are lines with only a comment. They are not addressable.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoM == [r |-> "", s |-> "", x |-> ""]
None == <<>>
Some(x) == <<x>>

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)

Range(s) == { s[i] : i \in 1..Len(s) }

RECURSIVE FlattenSeq(_)
FlattenSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq(Tail(ss))

RECURSIVE Dedupe(_)
Dedupe(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET d == Dedupe(SubSeq(s, 1, Len(s) - 1)) l == s[Len(s)]
       IN IF \E i \in 1..Len(d) : d[i] = l THEN d ELSE Append(d, l)

InsertAt(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
IsPfx(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]

Digits == { ToString(i) : i \in 0..63 }

-----------------------------------------------------------------------------
(* Addressing *)

IsCom(n) == n.t = "com"
VirtIdx(c) == SelectSeq([i \in 1..Len(c) |-> i], LAMBDA i : ~IsCom(c[i]))
VirtLen(c) == Len(VirtIdx(c))

\* Physical position (1-based) of the child that a path token addresses. 0 if there is none.
PhysOf(n, tok) ==
  IF n.t = "map"
  THEN LET S == { i \in 1..Len(n.c) : ~IsCom(n.c[i]) /\ n.c[i].k = tok }
       IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
  ELSE IF n.t = "seq"
  THEN LET vi == VirtIdx(n.c)
           S == { i \in 1..Len(vi) : ToString(i - 1) = tok }
       IN IF S = {} THEN 0 ELSE vi[CHOOSE i \in S : TRUE]
  ELSE 0

RECURSIVE Lookup(_, _)
Lookup(n, p) ==
  IF p = <<>> THEN Some(n)
  ELSE LET i == PhysOf(n, Head(p)) IN IF i = 0 THEN None ELSE Lookup(n.c[i], Tail(p))

Exists(n, p) == Lookup(n, p) # None

RECURSIVE Put(_, _, _)
Put(n, p, new) ==
  IF p = <<>> THEN new
  ELSE LET i == PhysOf(n, Head(p))
       IN [n EXCEPT !.c = [@ EXCEPT ![i] = Put(@, Tail(p), new)]]

\* The member of a list that is a mapping is found on the line of its first key.
FirstKeyIdx(n) == Head(VirtIdx(n.c))
RECURSIVE IsSeqMember(_, _)
IsSeqMember(root, p) ==
  IF p = <<>> THEN FALSE ELSE LET q == Lookup(root, Front(p)) IN q # None /\ q[1].t = "seq"
LinePath(root, p) ==
  LET n == Lookup(root, p)[1]
  IN IF IsSeqMember(root, p) /\ n.t = "map" /\ VirtLen(n.c) > 0
     THEN Append(p, n.c[FirstKeyIdx(n)].k) ELSE p
LineM(root, p) == Lookup(root, LinePath(root, p))[1].m

-----------------------------------------------------------------------------
(* Data denoted by a tree. Mappings: [t "m"], lists: [t "l"], the rest: [t "s", v] *)

RECURSIVE Data(_)
Data(n) ==
  IF n.t = "map"
  THEN LET vi == VirtIdx(n.c)
       IN [t |-> "m", v |-> "", e |-> [i \in 1..Len(vi) |-> [k |-> n.c[vi[i]].k, d |-> Data(n.c[vi[i]])]]]
  ELSE IF n.t = "seq"
  THEN LET vi == VirtIdx(n.c)
       IN [t |-> "l", v |-> "", e |-> [i \in 1..Len(vi) |-> [k |-> "", d |-> Data(n.c[vi[i]])]]]
  ELSE IF n.t = "nul" THEN [t |-> "s", v |-> "z:", e |-> <<>>]
  ELSE IF n.v = "e:[]" THEN [t |-> "l", v |-> "", e |-> <<>>]
  ELSE IF n.v = "e:{}" THEN [t |-> "m", v |-> "", e |-> <<>>]
  ELSE [t |-> "s", v |-> n.v, e |-> <<>>]

RECURSIVE SameData(_, _)
SameData(a, b) ==
  /\ a.t = b.t /\ a.v = b.v /\ Len(a.e) = Len(b.e)
  /\ \A i \in 1..Len(a.e) :
       IF a.t = "m"
       THEN \E j \in 1..Len(b.e) : a.e[i].k = b.e[j].k /\ SameData(a.e[i].d, b.e[j].d)
       ELSE SameData(a.e[i].d, b.e[i].d)

\* A value that goes through plain data and back (copy/move): comments are not part of the value. 
RECURSIVE RevalueIn(_)
RevalueIn(n) ==
  IF n.t \in {"map", "seq"}
  THEN [n EXCEPT !.m = NoM,
                 !.c = LET vi == VirtIdx(n.c)
                       IN [i \in 1..Len(vi) |->
                             LET q == RevalueIn(n.c[vi[i]])
                             IN IF n.t = "map" /\ q.t = "sca" /\ q.v = "z:" THEN [q EXCEPT !.t = "nul", !.v = "", !.r = ""] ELSE q]]
  ELSE [n EXCEPT !.m = NoM]
\* Deviation: the last newline of a text that is read on its own, or that is all that a list holds, is lost.
Revalue(n) ==
  IF n.t = "blk" THEN [n EXCEPT !.m = NoM, !.r = "|-"]
  ELSE LET q == RevalueIn(n)
       IN IF n.t = "seq" /\ Len(n.c) = 1 /\ n.c[1].t = "blk" THEN [q EXCEPT !.c[1].r = "|-"] ELSE q

-----------------------------------------------------------------------------
(* Text of a recipe *)

Cm(m) == IF m.r = "" THEN "" ELSE "  " \o m.r

\* A multi-line value states its indentation if it starts with spaces.
Marker(n) ==
  LET ls == SelectSeq(n.c, LAMBDA x : x.r # "")
  IN IF ls # <<>> /\ SubSeq(ls[1].r, 1, 1) = " "
     THEN SubSeq(n.r, 1, 1) \o "2" \o SubSeq(n.r, 2, Len(n.r)) ELSE n.r
RBlock(n, head, ind) ==
  <<head \o Marker(n) \o Cm(n.m)>>
  \o [i \in 1..Len(n.c) |-> IF n.c[i].r = "" THEN "" ELSE Spaces(ind + 2) \o n.c[i].r]

RECURSIVE RKey(_, _, _), RKids(_, _), RList(_, _), RElem(_, _)
\* A member of a mapping. `first` precedes the key on its line.
RKey(n, first, ind) ==
  IF n.t = "sca" THEN <<first \o n.k \o ": " \o n.r \o Cm(n.m)>>
  ELSE IF n.t = "nul" THEN <<first \o n.k \o ":" \o Cm(n.m)>>
  ELSE IF n.t = "blk" THEN RBlock(n, first \o n.k \o ": ", ind)
  ELSE <<first \o n.k \o ":" \o Cm(n.m)>>
       \o (IF n.t = "seq" THEN RList(n.c, ind + 2) ELSE RKids(n.c, ind + 2))
RKids(c, ind) ==
  IF c = <<>> THEN <<>>
  ELSE (IF IsCom(Head(c)) THEN <<Spaces(ind) \o Head(c).r>> ELSE RKey(Head(c), Spaces(ind), ind))
       \o RKids(Tail(c), ind)
RList(c, ind) ==
  IF c = <<>> THEN <<>>
  ELSE (IF IsCom(Head(c)) THEN <<Spaces(ind) \o Head(c).r>>
        ELSE IF Head(c).t = "map" THEN RElem(Head(c).c, ind)
        ELSE IF Head(c).t = "blk" THEN RBlock(Head(c), Spaces(ind) \o "- ", ind)
        ELSE <<Spaces(ind) \o "- " \o Head(c).r \o Cm(Head(c).m)>>)
       \o RList(Tail(c), ind)
\* A mapping that is a member of a list.
RElem(c, ind) ==
  IF c = <<>> THEN <<>>
  ELSE IF IsCom(Head(c)) THEN <<Spaces(ind) \o Head(c).r>> \o RElem(Tail(c), ind)
  ELSE RKey(Head(c), Spaces(ind) \o "- ", ind + 2) \o RKids(Tail(c), ind + 2)

RECURSIVE RTop(_)
RTop(c) ==
  IF c = <<>> THEN <<>>
  ELSE (IF IsCom(Head(c)) THEN <<Head(c).r>> ELSE Append(RKey(Head(c), "", 0), ""))
       \o RTop(Tail(c))

RHeader(vars) ==
  IF vars = <<>> THEN <<>>
  ELSE Append([i \in 1..Len(vars) |-> "{% set " \o vars[i].k \o " = " \o vars[i].r \o " %}"], "")

RText(st) == (IF st.ver = 0 THEN RHeader(st.vars) ELSE <<>>) \o RTop(st.root.c)

-----------------------------------------------------------------------------
(* Reads *)

\* Nodes in order of appearance, as [p |-> path, n |-> node, e |-> TRUE for a mapping that is a list member].
RECURSIVE Walk(_, _), WalkC(_, _, _, _)
WalkC(n, p, i, virt) ==
  IF i > Len(n.c) THEN <<>>
  ELSE IF IsCom(n.c[i]) THEN WalkC(n, p, i + 1, virt)
  ELSE LET q == Append(p, IF n.t = "seq" THEN ToString(virt) ELSE n.c[i].k)
       IN <<[p |-> q, n |-> n.c[i], e |-> n.t = "seq" /\ n.c[i].t = "map"]>>
          \o Walk(n.c[i], q) \o WalkC(n, p, i + 1, virt + 1)
Walk(n, p) == IF n.t \in {"map", "seq"} THEN WalkC(n, p, 1, 0) ELSE <<>>
All(root) == Walk(root, <<>>)

Sel2(s, P(_)) == SelectSeq(s, P)
Map2(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

IsLeaf(n) == n.t \in {"sca", "nul", "blk"}
ValuePaths(root) == Map2(SelectSeq(All(root), LAMBDA x : IsLeaf(x.n)), LAMBDA x : x.p)

MOf(x) == IF x.e /\ VirtLen(x.n.c) > 0 THEN x.n.c[FirstKeyIdx(x.n)].m ELSE x.n.m

\* Selectors in order of appearance with the paths of the lines that they are found on.
SelEntries(root) ==
  Map2(SelectSeq(All(root), LAMBDA x : MOf(x).s # ""), LAMBDA x : [s |-> MOf(x).s, p |-> x.p])
Selectors(root) == Dedupe(Map2(SelEntries(root), LAMBDA x : x.s))
SelPaths(root, s) == Map2(SelectSeq(SelEntries(root), LAMBDA x : x.s = s), LAMBDA x : x.p)

\* The comment of a selector may have its own marker (`# [win]  # why`), which takes the place of the first one.
NoMarker(x) == IF Len(x) > 2 /\ SubSeq(x, 1, 2) = "# " THEN SubSeq(x, 3, Len(x)) ELSE x

\* Comments, without selectors.
CommentsTable(root) ==
  Map2(SelectSeq(All(root), LAMBDA x : MOf(x).r # "" /\ (MOf(x).s = "" \/ MOf(x).x # "")),
       LAMBDA x : [p |-> x.p, c |-> IF MOf(x).s = "" THEN MOf(x).r ELSE "# " \o NoMarker(MOf(x).x)])

\* Paths of the values that are equal to a primitive value.
FindValue(root, v) ==
  Map2(SelectSeq(All(root), LAMBDA x : (x.n.t = "sca" /\ x.n.v = v) \/ (x.n.t = "nul" /\ v = "z:")),
       LAMBDA x : x.p)

\* Paths of the strings that use a variable. `refs` maps a value, or the line of a text, to the variables that it uses.
Uses(refs, v, var) == v \in DOMAIN refs /\ \E i \in 1..Len(refs[v]) : refs[v][i] = var
VarRefs(root, refs, var) ==
  Map2(SelectSeq(All(root), LAMBDA x : \/ x.n.t = "sca" /\ Uses(refs, x.n.v, var)
                                       \/ x.n.t = "blk" /\ \E j \in 1..Len(x.n.c) : Uses(refs, x.n.c[j].r, var)),
       LAMBDA x : x.p)

VarIdx(vars, k) == LET S == { i \in 1..Len(vars) : vars[i].k = k } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

-----------------------------------------------------------------------------
(* JSON patch operations (RFC 6902) on a tree. All of them return <<>> (failure) or <<new root>>. *)

\* Deviation: a text that is a member of a list always ends with a newline.
AsMember(val, key) == [val EXCEPT !.k = key, !.r = IF val.t = "blk" /\ key = "" THEN "|" ELSE @]
\* A new key with a null value is an empty key. (An existing key is given a value that is written as `null`.)
AsNewKey(val, key) ==
  IF val.t = "sca" /\ val.v = "z:" THEN [val EXCEPT !.t = "nul", !.k = key, !.v = "", !.r = ""] ELSE AsMember(val, key)

\* The value of a key is replaced. A value on the line of its key brings its own comment. The text of a key that
\* existed before always ends with a newline.
OnKey(old, val) ==
  [val EXCEPT !.k = old.k, !.m = IF val.t = "sca" THEN NoM ELSE old.m,
              !.r = IF val.t = "blk" THEN "|" ELSE @]

PReplaceAt(root, p, val) ==
  LET old == Lookup(root, p)[1]
  IN Put(root, p, IF IsSeqMember(root, p) THEN AsMember(val, "") ELSE OnKey(old, val))

PAdd(root, p, val) ==
  IF p = <<>> THEN None
  ELSE LET parent == Lookup(root, Front(p)) tok == Last(p) IN
  IF parent = None THEN None
  ELSE LET par == parent[1] IN
  IF tok = "-"
  THEN IF par.t = "seq" \/ par.t = "nul"
       THEN Some(Put(root, Front(p), [par EXCEPT !.t = "seq", !.c = Append(@, AsMember(val, ""))]))
       ELSE None
  ELSE IF par.t = "seq"
  THEN IF tok = ToString(VirtLen(par.c))
       THEN Some(Put(root, Front(p), [par EXCEPT !.c = Append(@, AsMember(val, ""))]))
       ELSE LET i == PhysOf(par, tok)
            IN IF i = 0 THEN None
               ELSE Some(Put(root, Front(p), [par EXCEPT !.c = InsertAt(@, i, AsMember(val, ""))]))
  ELSE IF par.t \in {"map", "nul"}
  THEN IF tok \in Digits THEN None
       ELSE IF PhysOf(par, tok) # 0 THEN Some(PReplaceAt(root, p, val))
       ELSE Some(Put(root, Front(p), [par EXCEPT !.t = "map", !.c = Append(@, AsNewKey(val, tok))]))
  ELSE None

\* A key that lost its last member denotes null (deviation from the RFC: a recipe has no syntax for the difference).
Emptied(n) == IF n.t \in {"map", "seq"} /\ n.c = <<>> THEN [n EXCEPT !.t = "nul"] ELSE n

PRemove(root, p) ==
  IF p = <<>> \/ ~Exists(root, p) THEN None
  ELSE LET par == Lookup(root, Front(p))[1]
           new == [par EXCEPT !.c = RemoveAt(@, PhysOf(par, Last(p)))]
       IN Some(Put(root, Front(p), IF Front(p) = <<>> THEN new ELSE Emptied(new)))

PReplace(root, p, val) ==
  IF p = <<>> \/ ~Exists(root, p) THEN None ELSE Some(PReplaceAt(root, p, val))

\* The value of an empty key is null.
Moved(n) == IF n.t = "nul" THEN [Revalue(n) EXCEPT !.t = "sca", !.v = "z:", !.r = "null"] ELSE Revalue(n)

PCopy(root, from, p) ==
  IF ~Exists(root, from) THEN None ELSE PAdd(root, p, Moved(Lookup(root, from)[1]))

PMove(root, from, p) ==
  IF ~Exists(root, from) THEN None
  ELSE IF IsPfx(from, p) THEN None
  ELSE LET rm == PRemove(root, from)
       IN IF rm = None THEN None ELSE PAdd(rm[1], p, Moved(Lookup(root, from)[1]))

PTest(root, p, val) == Exists(root, p) /\ SameData(Data(Lookup(root, p)[1]), Data(val))

-----------------------------------------------------------------------------
(* Selectors and comments *)

\* A comment in its normal form: the selector comes first.
Canon(s, x) == [r |-> IF s = "" /\ x = "" THEN "" ELSE IF s = "" THEN "# " \o x
                      ELSE IF x = "" THEN "# [" \o s \o "]" ELSE "# [" \o s \o "] " \o x,
                s |-> s, x |-> x]

SetM(root, p, m) ==
  LET q == LinePath(root, p) IN Put(root, q, [Lookup(root, q)[1] EXCEPT !.m = m])

\* A selector that is merged with an existing selector replaces the whole comment (deviation: the text of the comment
\* is lost), as does a selector in "REPLACE" mode.
AddSelector(root, p, s, mode) ==
  LET m == LineM(root, p)
      new == IF m.r = "" \/ mode = "REPLACE" THEN Canon(s, "")
             ELSE IF m.s # "" THEN Canon(m.s \o (IF mode = "AND" THEN " and " ELSE " or ") \o s, "")
             ELSE Canon(s, m.x)
  IN SetM(root, p, new)

RemoveSelector(root, p) ==
  LET m == LineM(root, p) IN IF m.s = "" THEN root ELSE SetM(root, p, Canon("", NoMarker(m.x)))

AddComment(root, p, x) == SetM(root, p, Canon(LineM(root, p).s, x))

-----------------------------------------------------------------------------
(* Variables. V0 recipes keep them in a header. The variables of V1 recipes are the members of `/context`. *)

CtxVars(root) ==
  LET n == Lookup(root, <<"context">>)
  IN IF n = None \/ n[1].t # "map" THEN <<>>
     ELSE Map2(SelectSeq(n[1].c, LAMBDA x : ~IsCom(x)),
               LAMBDA x : [k |-> x.k, v |-> IF x.t = "nul" THEN "z:" ELSE x.v, r |-> x.r])
Vars(st) == IF st.ver = 0 THEN st.vars ELSE CtxVars(st.root)

\* `val` is a value, as a node.
SetVar(st, k, val) ==
  IF st.ver = 0
  THEN LET i == VarIdx(st.vars, k) e == [k |-> k, v |-> val.v, r |-> val.r]
       IN [st EXCEPT !.vars = IF i = 0 THEN Append(@, e) ELSE [@ EXCEPT ![i] = e]]
  ELSE LET a == PAdd(st.root, <<"context", k>>, val)
       IN [st EXCEPT !.root = IF a # None THEN a[1]
             ELSE PAdd(st.root, <<"context">>,
                       [t |-> "map", k |-> "", v |-> "", r |-> "", m |-> NoM, c |-> <<AsMember(val, k)>>])[1]]
DelVar(st, k) ==
  IF VarIdx(Vars(st), k) = 0 THEN st
  ELSE IF st.ver = 0 THEN [st EXCEPT !.vars = RemoveAt(@, VarIdx(@, k))]
  ELSE [st EXCEPT !.root = PRemove(@, <<"context", k>>)[1]]

-----------------------------------------------------------------------------
(* Operations of a user, as records. Apply returns [ret, st]. *)

Res(ret, st) == [ret |-> ret, st |-> st]
Changed(st, root) == [st EXCEPT !.root = root, !.mod = TRUE]

DoPatch(st, op) ==
  IF op.o = "test" THEN Res(IF PTest(st.root, op.p, op.val) THEN "T" ELSE "F", st)
  ELSE IF op.o = "move" /\ op.p = op.from THEN Res("T", st)
  ELSE LET new == CASE op.o = "add" -> PAdd(st.root, op.p, op.val)
                    [] op.o = "replace" -> PReplace(st.root, op.p, op.val)
                    [] op.o = "remove" -> PRemove(st.root, op.p)
                    [] op.o = "copy" -> PCopy(st.root, op.from, op.p)
                    [] op.o = "move" -> PMove(st.root, op.from, op.p)
       IN IF new = None THEN Res("F", st) ELSE Res("T", Changed(st, new[1]))

\* `search_and_patch`: the operation is performed on every path, from last to first, until it fails.
RECURSIVE PatchAll(_, _, _)
PatchAll(st, op, ps) ==
  IF ps = <<>> THEN Res("T", st)
  ELSE LET r == DoPatch(st, [op EXCEPT !.p = Last(ps)])
       IN IF r.ret = "F" THEN r ELSE PatchAll(r.st, op, Front(ps))

\* Values matched by a search: `hits` are the texts of the values that match. `chits` are the pairs of a value
\* and a comment that match, if comments are searched too. `lhits` are the lines of texts that match.
Matches(n, op) ==
  IF n.t = "blk"
  THEN \E j \in 1..Len(n.c) : n.c[j].r \in Range(op.lhits)
  ELSE /\ n.t = "sca"
       /\ (IF op.com /\ n.m.r # "" THEN n.r \o "  " \o n.m.r ELSE n.r) \in Range(op.hits)
Search(root, op) == Map2(SelectSeq(All(root), LAMBDA x : Matches(x.n, op)), LAMBDA x : x.p)

Apply(st, op) ==
  CASE op.op = "patch" -> DoPatch(st, op)
    [] op.op = "badpatch" -> Res("Invalid", st)
    [] op.op = "search_patch" -> PatchAll(st, op, Search(st.root, op))
    [] op.op = "selector_add" ->
         IF ~Exists(st.root, op.p) THEN Res("KeyError", st)
         ELSE IF op.bad THEN Res("ValueError", st)
         ELSE Res("none", Changed(st, AddSelector(st.root, op.p, op.s, op.mode)))
    [] op.op = "selector_rm" ->
         IF ~Exists(st.root, op.p) THEN Res("KeyError", st)
         ELSE IF LineM(st.root, op.p).s = "" THEN Res("none", st)
         ELSE Res("[" \o LineM(st.root, op.p).s \o "]", Changed(st, RemoveSelector(st.root, op.p)))
    [] op.op = "comment" ->
         IF op.bad THEN Res("ValueError", st)
         ELSE IF ~Exists(st.root, op.p) THEN Res("KeyError", st)
         ELSE Res("none", Changed(st, AddComment(st.root, op.p, op.x)))
    [] op.op = "var_set" -> Res("none", [SetVar(st, op.k, op.val) EXCEPT !.mod = TRUE])
    [] op.op = "var_del" ->
         IF VarIdx(Vars(st), op.k) = 0 THEN Res("none", st)
         ELSE Res("none", [DelVar(st, op.k) EXCEPT !.mod = TRUE])
    [] op.op = "read" -> Res("none", st)

=============================================================================
