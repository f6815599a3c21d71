----------------------------- MODULE RecipeDeps -----------------------------
(***************************************************************************)
(* The dependencies of a recipe, and the edits of dependencies, on top of  *)
(* the tree of `Recipe`. `info` maps a value to the package name that it   *)
(* denotes (n) and to its text with the variables substituted (s).         *)
(***************************************************************************)
EXTENDS Recipe

\* Sections, and the kinds of dependencies that they hold
Kind(tok) ==
  CASE tok = "build" -> "BUILD" [] tok = "host" -> "HOST" [] tok = "run" -> "RUN"
    [] tok \in {"run_constrained", "run_constraints"} -> "RUN_CONSTRAINTS"
    [] tok = "run_exports" -> "RUN_EXPORTS" [] tok = "requires" -> "TESTS" [] OTHER -> ""

OutputsOf(root) == LET n == Lookup(root, <<"outputs">>) IN IF n # None /\ n[1].t = "seq" THEN VirtLen(n[1].c) ELSE 0
Multi(root) == Exists(root, <<"outputs">>)
PackagePaths(root) == <<<<>>>> \o [i \in 1..OutputsOf(root) |-> <<"outputs", ToString(i - 1)>>]

\* The name of the recipe is the name of the package unless the recipe has its own section for it.
NamePath(st, pp) ==
  IF pp = <<>> THEN IF st.ver = 1 /\ Multi(st.root) THEN <<"recipe", "name">> ELSE <<"package", "name">>
  ELSE pp \o (IF st.ver = 1 THEN <<"package", "name">> ELSE <<"name">>)

Txt(info, v) == IF v \in DOMAIN info THEN info[v].s ELSE "?"
RECURSIVE PkgScan(_, _, _, _)
PkgScan(st, info, i, acc) ==
  LET ps == PackagePaths(st.root) IN
  IF i > Len(ps) THEN [exc |-> "", e |-> acc]
  ELSE LET n == Lookup(st.root, NamePath(st, ps[i])) IN
       IF n = None THEN [exc |-> "KeyError", e |-> <<>>]
       ELSE LET nm == Txt(info, n[1].v) IN
            IF \E j \in 1..Len(acc) : acc[j].n = nm THEN [exc |-> "ValueError", e |-> <<>>]
            ELSE PkgScan(st, info, i + 1, Append(acc, [n |-> nm, p |-> ps[i]]))
Pkgs(st, info) == PkgScan(st, info, 1, <<>>)

RecipeName(st, info) ==
  LET n == Lookup(st.root, NamePath(st, <<>>)) IN IF n = None THEN "<none>" ELSE Txt(info, n[1].v)

\* Members of a list with their positions. Comment lines have no position.
Members(n) == LET vi == VirtIdx(n.c) IN [i \in 1..Len(vi) |-> [i |-> ToString(i - 1), n |-> n.c[vi[i]]]]

RECURSIVE SecDeps(_, _, _, _, _, _)
SecDeps(root, info, by, req, p, i) ==
  IF i > Len(req.c) THEN <<>>
  ELSE LET sec == req.c[i] IN
       (IF IsCom(sec) \/ sec.t # "seq" \/ Kind(sec.k) = "" THEN <<>>
        ELSE LET ms == SelectSeq(Members(sec), LAMBDA m : m.n.v # "z:")
             IN [j \in 1..Len(ms) |->
                  [by |-> by, p |-> p \o <<sec.k, ms[j].i>>, ty |-> Kind(sec.k), s |-> info[ms[j].n.v].s,
                   nm |-> info[ms[j].n.v].n, sel |-> ms[j].n.m.s]])
       \o SecDeps(root, info, by, req, p, i + 1)
OwnDeps(st, info, pk) ==
  LET p == Append(pk.p, "requirements") req == Lookup(st.root, p)
  IN IF req = None \/ req[1].t # "map" THEN <<>> ELSE SecDeps(st.root, info, pk.n, req[1], p, 1)

\* Every package of a recipe with outputs has the dependencies of the top level too.
DepMap(st, info) ==
  LET pk == Pkgs(st, info) IN
  IF pk.exc # "" THEN [exc |-> pk.exc, e |-> <<>>]
  ELSE LET top == OwnDeps(st, info, pk.e[1]) IN
       [exc |-> "",
        e |-> [i \in 1..Len(pk.e) |->
                [n |-> pk.e[i].n,
                 ds |-> IF i = 1 THEN top
                        ELSE OwnDeps(st, info, pk.e[i]) \o [j \in 1..Len(top) |-> [top[j] EXCEPT !.by = pk.e[i].n]]]]]

PathSections(ver) == <<"build", "host", "run", IF ver = 0 THEN "run_constrained" ELSE "run_constraints">>
DepPaths(st) ==
  LET ps == PackagePaths(st.root) IN
  FlattenSeq([i \in 1..Len(ps) |-> FlattenSeq([j \in 1..4 |->
    LET p == ps[i] \o <<"requirements", PathSections(st.ver)[j]>> n == Lookup(st.root, p)
    IN IF n = None \/ n[1].t # "seq" THEN <<>>
       ELSE LET ms == Members(n[1]) IN [k \in 1..Len(ms) |-> Append(p, ms[k].i)]])])

-----------------------------------------------------------------------------
(* Edits *)

ValidDepPath(p) ==
  \/ Len(p) = 3 /\ p[1] = "requirements" /\ Kind(p[2]) # "" /\ p[3] \in Digits
  \/ Len(p) = 5 /\ p[1] = "outputs" /\ p[2] \in Digits /\ p[3] = "requirements" /\ Kind(p[4]) # "" /\ p[5] \in Digits

\* The first dependency in a section on the same package.
DupOf(root, info, base, name) ==
  LET n == Lookup(root, base) IN
  IF n = None \/ n[1].t # "seq" THEN <<>>
  ELSE SelectSeq(Members(n[1]), LAMBDA m : m.n.v # "z:" /\ info[m.n.v].n = name)

DepAdd(st, info, op) ==
  LET root == st.root
      base == Front(op.p)
      fresh == ~Exists(root, base)
      dup == IF op.mode \in {"REPLACE", "IGNORE"} THEN DupOf(root, info, base, op.name) ELSE <<>>
      over == op.mode = "EXACT_POSITION" \/ (op.mode = "REPLACE" /\ dup # <<>>)
      at == IF op.mode = "EXACT_POSITION" THEN op.p ELSE Append(base, dup[1].i)
      new == IF over THEN PReplace(root, at, op.val)
             ELSE IF fresh THEN PAdd(root, base, [t |-> "seq", k |-> "", v |-> "", r |-> "", m |-> NoM, c |-> <<op.val>>])
             ELSE PAdd(root, Append(base, "-"), op.val)
  IN IF ~op.abs \/ ~ValidDepPath(op.p) \/ (fresh /\ ~Exists(root, Front(base))) \/ (op.mode = "IGNORE" /\ dup # <<>>)
        \/ new = None
     THEN Res("F", st)
     ELSE LET where == IF over THEN at ELSE Append(base, ToString(VirtLen(Lookup(new[1], base)[1].c) - 1))
              \* A selector that is found on the line that is replaced is kept, unless it is to be replaced too.
              keep == IF over /\ op.smode # "REPLACE" THEN LineM(root, at).s ELSE ""
              kept == IF keep = "" THEN new[1] ELSE AddSelector(new[1], where, keep, "ADD")
          IN Res("T", Changed(st, IF op.s = "" THEN kept ELSE AddSelector(kept, where, op.s, op.smode)))

ApplyD(st, info, op) ==
  CASE op.op = "dep_add" -> DepAdd(st, info, op)
    [] op.op = "dep_rm" -> DoPatch(st, [o |-> "remove", p |-> op.p])
    [] OTHER -> Apply(st, op)
=============================================================================
