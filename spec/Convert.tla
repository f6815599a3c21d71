------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* The conversion of a V0 recipe to the V1 format (CEP-13/CEP-14): what    *)
(* data the V1 recipe holds, in what order the keys of its sections come,  *)
(* what the user is told, and which lines survive as they are.             *)
(*                                                                         *)
(* A case c holds:                                                         *)
(*   root, vars  the V0 recipe, as in Recipe.tla                           *)
(*   jin   V0 value -> V1 value, for values with variables                 *)
(*   sel   selector -> V1 expression                                       *)
(*   lic   license -> SPDX name, or "" if it is not recognised             *)
(*   env   member of script_env -> [t |-> "env" | "secret" | "bad", k, v]  *)
(*   ctx   value of a variable -> [ok, v, complex]                         *)
(* Data is made of [t |-> "m" | "l" | "s", v, e], as in Recipe.tla.        *)
(***************************************************************************)
EXTENDS Recipe

S(v) == [t |-> "s", v |-> v, e |-> <<>>]
Str(s) == S("s:" \o s)
Null == S("z:")
L(ds) == [t |-> "l", v |-> "", e |-> [i \in 1..Len(ds) |-> [k |-> "", d |-> ds[i]]]]
M(es) == [t |-> "m", v |-> "", e |-> es]
KV(key, d) == [k |-> key, d |-> d]
Members(d) == [i \in 1..Len(d.e) |-> d.e[i].d]

KeyIdx(d, key) == LET X == { i \in 1..Len(d.e) : d.e[i].k = key } IN IF d.t # "m" \/ X = {} THEN 0 ELSE CHOOSE i \in X : \A j \in X : i <= j
Has(d, key) == KeyIdx(d, key) # 0
Get(d, key) == d.e[KeyIdx(d, key)].d
GetOr(d, key, x) == IF Has(d, key) THEN Get(d, key) ELSE x
\* A section that loses its last key is empty.
Del(d, key) == IF ~Has(d, key) THEN d ELSE IF Len(d.e) = 1 THEN Null ELSE [d EXCEPT !.e = RemoveAt(@, KeyIdx(d, key))]
Set(d, key, x) ==
  IF d = Null THEN M(<<KV(key, x)>>)
  ELSE IF Has(d, key) THEN [d EXCEPT !.e = [@ EXCEPT ![KeyIdx(d, key)] = KV(key, x)]]
  ELSE [d EXCEPT !.e = Append(@, KV(key, x))]
Rename(d, old, new) == IF Has(d, old) THEN Set(Del(d, old), new, Get(d, old)) ELSE d
\* Moves a field into a section, which is created if it does not exist.
Into(d, old, sec, new) ==
  IF ~Has(d, old) THEN d
  ELSE LET d1 == IF Has(d, sec) THEN d ELSE Set(d, sec, Null)
           d2 == Del(d1, old)
       IN Set(d2, sec, Set(Get(d2, sec), new, Get(d1, old)))

RECURSIVE FoldRename(_, _)
FoldRename(d, rs) == IF rs = <<>> THEN d ELSE FoldRename(Rename(d, Head(rs)[1], Head(rs)[2]), Tail(rs))
RECURSIVE DelAll(_, _)
DelAll(d, ks) == IF ks = <<>> THEN d ELSE DelAll(Del(d, Head(ks)), Tail(ks))

\* Keys in canonical order. Keys that are not listed come last, as they were.
Sorted(d, order) ==
  IF d.t # "m" THEN d
  ELSE LET known == SelectSeq(order, LAMBDA key : Has(d, key))
           rest == SelectSeq(d.e, LAMBDA x : x.k \notin Range(order))
       IN [d EXCEPT !.e = [i \in 1..Len(known) |-> KV(known[i], Get(d, known[i]))] \o rest]

TopOrder == <<"schema_version", "context", "package", "recipe", "source", "files", "build", "requirements", "outputs", "test", "tests",
              "about", "extra">>
SourceOrder == <<"url", "sha256", "md5", "path", "use_gitignore", "git", "branch", "tag", "rev", "depth", "lfs", "target_directory",
                 "file_name", "patches">>
BuildOrder == <<"number", "string", "skip", "noarch", "script", "merge_build_and_host_envs", "always_include_files", "always_copy_files",
                "variant", "python", "prefix_detection", "dynamic_linking">>
PyTestOrder == <<"imports", "pip_check">>

-----------------------------------------------------------------------------
(* Values and selectors *)

Jin(c, v) == IF v \in DOMAIN c.jin THEN c.jin[v] ELSE v
Expr(c, s) == c.sel[s]
IsBool(v) == v \in {"b:true", "b:false"}
IsSkip(p) == Len(p) >= 2 /\ p[Len(p)] = "skip" /\ p[Len(p) - 1] = "build"

Plain(v) == IF v = "e:[]" THEN L(<<>>) ELSE IF v = "e:{}" THEN M(<<>>) ELSE S(v)
Ternary(c, n) == Str("${{ " \o (IF n.v = "b:true" THEN "true" ELSE "false") \o " if " \o Expr(c, n.m.s) \o " }}")

RECURSIVE D0(_, _, _, _)
\* The data of a node of the V0 recipe, with its conditions and variables in the V1 notation.
D0(c, n, p, listed) ==
  IF n.t \in {"map", "seq"}
  THEN LET vi == VirtIdx(n.c)
           kid(i) == n.c[vi[i]]
       IN [t |-> IF n.t = "map" THEN "m" ELSE "l", v |-> "",
           e |-> [i \in 1..Len(vi) |->
                   [k |-> IF n.t = "map" THEN kid(i).k ELSE "",
                    d |-> D0(c, kid(i), Append(p, IF n.t = "map" THEN kid(i).k ELSE ToString(i - 1)), n.t = "seq")]]]
  ELSE IF n.t = "nul" THEN Null
  ELSE IF n.t = "blk" /\ ~listed THEN S(Jin(c, n.v))
  ELSE IF n.m.s = "" THEN Plain(Jin(c, n.v))
  ELSE IF IsBool(n.v) THEN IF IsSkip(p) /\ n.v = "b:true" THEN Str(Expr(c, n.m.s)) ELSE Ternary(c, n)
  ELSE IF listed THEN M(<<KV("if", Str(Expr(c, n.m.s))), KV("then", Plain(Jin(c, n.v)))>>)
  ELSE Plain(Jin(c, n.v))

\* Selectors that have no counterpart are kept as comments, and the user is told.
KeptSel(x) == x.n.m.s # "" /\ ~x.e /\ ~(x.n.t = "sca" /\ IsBool(x.n.v))
RECURSIVE P(_)
P(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o P(Tail(p))
Warn(s) == [c |-> "warning", s |-> s]
Err(s) == [c |-> "error", s |-> s]
ListedIn(root, p) == IsSeqMember(root, p)
SelMsgs(c) ==
  Map2(SelectSeq(All(c.root), LAMBDA x : KeptSel(x) /\ ~ListedIn(c.root, x.p)), LAMBDA x : Warn(P(x.p)))

-----------------------------------------------------------------------------
(* Variables *)

CtxEntries(c) == SelectSeq(c.vars, LAMBDA x : c.ctx[x.v].ok)
Context(c) == M([i \in 1..Len(CtxEntries(c)) |-> KV(CtxEntries(c)[i].k, S(c.ctx[CtxEntries(c)[i].v].v))])
VarMsgs(c) ==
  Map2(SelectSeq(c.vars, LAMBDA x : ~c.ctx[x.v].ok), LAMBDA x : Warn(x.k))
  \o (IF \E i \in 1..Len(CtxEntries(c)) : c.ctx[CtxEntries(c)[i].v].complex THEN <<Warn("unsupported syntax")>> ELSE <<>>)

-----------------------------------------------------------------------------
(* Sections of a package. `b` is the base path of the package as text ("" or "/outputs/0"). *)

\* [d |-> data of the package, m |-> messages]
R(d, m) == [d |-> d, m |-> m]
Deprecated(d, path, keys) ==
  LET gone == SelectSeq(keys, LAMBDA key : Has(d, key))
  IN R(DelAll(d, gone), [i \in 1..Len(gone) |-> Warn(path \o "/" \o gone[i])])

Misspellings(d) ==
  LET b1 == IF Has(d, "build")
            THEN Set(d, "build", FoldRename(Get(d, "build"), <<<<"skipt", "skip">>, <<"skips", "skip">>, <<"Skip", "skip">>>>))
            ELSE d
  IN Rename(b1, "extras", "extra")

SourceOf(s) ==
  Sorted(FoldRename(s, <<<<"fn", "file_name">>, <<"folder", "target_directory">>, <<"git_url", "git">>, <<"git_tag", "tag">>,
                        <<"git_rev", "rev">>, <<"git_depth", "depth">>>>), SourceOrder)
OldVcs(s) == (IF Has(s, "svn_url") THEN <<Warn("SVN")>> ELSE <<>>) \o (IF Has(s, "hg_url") THEN <<Warn("HG")>> ELSE <<>>)
Source(d) ==
  IF ~Has(d, "source") THEN R(d, <<>>)
  ELSE LET s == Get(d, "source")
       IN IF s.t = "l"
          THEN R(Set(d, "source", L(Map2(Members(s), SourceOf))), FlattenSeq(Map2(Members(s), OldVcs)))
          ELSE R(Set(d, "source", SourceOf(s)), OldVcs(s))

\* Exported dependencies are requirements.
ToRequirements(d, key) ==
  IF ~Has(d, "build") \/ ~Has(Get(d, "build"), key) THEN d
  ELSE LET x == Get(Get(d, "build"), key)
           d1 == IF Has(d, "requirements") THEN d ELSE Set(d, "requirements", Null)
           d2 == Set(d1, "build", Del(Get(d1, "build"), key))
       IN Set(d2, "requirements", Set(Get(d2, "requirements"), key, x))

BuildDeprecated ==
  <<"pre-link", "noarch_python", "features", "msvc_compiler", "requires_features", "provides_features", "preferred_env",
    "preferred_env_executable_paths", "disable_pip", "pin_depends", "overlinking_ignore_patterns", "rpaths_patcher", "post-link", "pre-unlink">>

\* `script_env`: assignments are the environment of the script, names are its secrets.
EnvItem(c, d) ==
  IF d.t = "m" THEN LET e == c.env[Get(d, "then").v] IN IF e.t = "secret" THEN [t |-> "csecret", d |-> d] ELSE [t |-> "bad", d |-> d]
  ELSE [t |-> c.env[d.v].t, d |-> d]
Script(c, b) ==
  IF ~Has(b, "script_env") \/ Get(b, "script_env").t # "l" \/ Get(b, "script_env").e = <<>> THEN R(b, <<>>)
  ELSE LET items == Map2(Members(Get(b, "script_env")), LAMBDA d : EnvItem(c, d))
           envs == SelectSeq(items, LAMBDA x : x.t = "env")
           secs == SelectSeq(items, LAMBDA x : x.t \in {"secret", "csecret"})
           bad == SelectSeq(items, LAMBDA x : x.t = "bad")
           obj == M((IF envs = <<>> THEN <<>>
                     ELSE <<KV("env", M([i \in 1..Len(envs) |-> KV(c.env[envs[i].d.v].k, S(c.env[envs[i].d.v].v))]))>>)
                    \o (IF secs = <<>> THEN <<>>
                        ELSE <<KV("secrets", L(Map2(secs, LAMBDA x : IF x.t = "secret" THEN S(c.env[x.d.v].v) ELSE x.d)))>>)
                    \o (IF Has(b, "script") THEN <<KV("content", Get(b, "script"))>> ELSE <<>>))
       IN R(Del(Set(b, "script", obj), "script_env"), [i \in 1..Len(bad) |-> Err("script_env")])

Build(c, d, base) ==
  LET d1 == ToRequirements(ToRequirements(d, "run_exports"), "ignore_run_exports")
  IN IF ~Has(d1, "build") THEN R(d1, <<>>)
     ELSE LET b0 == FoldRename(Get(d1, "build"), <<<<"merge_build_host", "merge_build_and_host_envs">>, <<"no_link", "always_copy_files">>>>)
              b1 == Into(b0, "entry_points", "python", "entry_points")
              b2 == Into(b1, "ignore_prefix_files", "prefix_detection", "ignore")
              b3 == Into(b2, "detect_binary_files_with_prefix", "prefix_detection", "ignore_binary_files")
              b4 == Into(b3, "rpaths", "dynamic_linking", "rpaths")
              b5 == Into(b4, "binary_relocation", "dynamic_linking", "binary_relocation")
              b6 == Into(b5, "missing_dso_whitelist", "dynamic_linking", "missing_dso_allowlist")
              b7 == Into(b6, "runpath_whitelist", "dynamic_linking", "rpath_allowlist")
              sc == Script(c, b7)
              dep == Deprecated(sc.d, base \o "/build", BuildDeprecated)
          IN R(Set(d1, "build", Sorted(dep.d, BuildOrder)), sc.m \o dep.m)

Requirements(d) ==
  IF ~Has(d, "requirements") THEN d
  ELSE Set(d, "requirements", Rename(Get(d, "requirements"), "run_constrained", "run_constraints"))

RECURSIVE JoinLines(_)
JoinLines(ds) == SubSeq(Head(ds).v, 3, Len(Head(ds).v)) \o (IF Len(ds) = 1 THEN "" ELSE "\n" \o JoinLines(Tail(ds)))
AboutDeprecated == <<"prelink_message", "license_family", "identifiers", "tags", "keywords", "doc_source_url">>
License(c, a, path) ==
  IF ~Has(a, "license") THEN R(a, <<Warn(path)>>)
  ELSE LET old == Get(a, "license").v
           new == c.lic[old]
       IN IF new = "" THEN R(a, <<Warn("license not recognized")>>)
          ELSE IF new = old THEN R(a, <<>>)
          ELSE R(Set(a, "license", S(new)), <<Warn(path \o "/license")>>)
About(c, d, base) ==
  IF ~Has(d, "about") THEN R(d, <<>>)
  ELSE LET a1 == FoldRename(Get(d, "about"), <<<<"home", "homepage">>, <<"dev_url", "repository">>, <<"doc_url", "documentation">>>>)
           li == License(c, a1, base \o "/about")
           a3 == IF Has(li.d, "summary") /\ Get(li.d, "summary").t = "l"
                 THEN Set(li.d, "summary", Str(JoinLines(Members(Get(li.d, "summary"))))) ELSE li.d
           dep == Deprecated(a3, base \o "/about", AboutDeprecated)
       IN R(Set(d, "about", dep.d), li.m \o dep.m)

-----------------------------------------------------------------------------
(* Tests *)

PipChecks == { "s:pip check", "s:python -m pip check", "s:python3 -m pip check" }
IsPythonRecipe(d) ==
  /\ Has(d, "requirements") /\ Has(Get(d, "requirements"), "host")
  /\ \E i \in 1..Len(Get(Get(d, "requirements"), "host").e) : Get(Get(d, "requirements"), "host").e[i].d = S("s:python")
FirstPip(l) == LET X == { i \in 1..Len(l.e) : l.e[i].d.t = "s" /\ l.e[i].d.v \in PipChecks } IN IF X = {} THEN 0 ELSE CHOOSE i \in X : \A j \in X : i <= j
\* The common `pip check` command is a flag of the Python test.
PipCheck(d, t) ==
  IF ~IsPythonRecipe(d) THEN t
  ELSE LET cmds == GetOr(t, "commands", L(<<>>))
           i == FirstPip(cmds)
           t1 == IF i = 0 THEN t
                 ELSE IF Len(cmds.e) = 1 THEN Del(Del(t, "commands"), "requirements")
                 ELSE Set(t, "commands", [cmds EXCEPT !.e = RemoveAt(@, i)])
       IN Set(t1, "python", Set(GetOr(t1, "python", Null), "pip_check", S(IF i = 0 THEN "b:false" ELSE "b:true")))
Tests(d) ==
  IF ~Has(d, "test") THEN d
  ELSE LET t0 == Get(d, "test")
           t1 == IF Has(t0, "files") THEN Set(t0, "files", M(<<KV("recipe", Get(t0, "files"))>>)) ELSE t0
           t2 == Into(t1, "source_files", "files", "source")
           t3 == Into(t2, "requires", "requirements", "run")
           t4 == PipCheck(d, t3)
           t5 == Rename(t4, "commands", "script")
           t6 == Into(t5, "imports", "python", "imports")
           t7 == Rename(t6, "downstreams", "downstream")
           py == IF Has(t7, "python") THEN <<M(<<KV("python", Sorted(Get(t7, "python"), PyTestOrder))>>)>> ELSE <<>>
           down == IF Has(t7, "downstream") THEN <<M(<<KV("downstream", Get(t7, "downstream"))>>)>> ELSE <<>>
           rest == Del(Del(t7, "python"), "downstream")
       IN Del(Set(d, "tests", L(py \o down \o (IF rest = Null THEN <<>> ELSE <<rest>>))), "test")

-----------------------------------------------------------------------------
(* The recipe *)

Package(c, d, base) ==
  LET d1 == Misspellings(d)
      s == Source(d1)
      b == Build(c, s.d, base)
      a == About(c, Requirements(b.d), base)
  IN R(Tests(a.d), s.m \o b.m \o a.m)

OutputNames(o) == IF Has(o, "name") \/ Has(o, "version") THEN Into(Into(o, "name", "package", "name"), "version", "package", "version") ELSE o
Multi(d) == Has(d, "outputs")

Converted(c) ==
  LET d0 == D0(c, c.root, <<>>, FALSE)
      ctx == IF Context(c).e = <<>> THEN d0 ELSE Set(d0, "context", Context(c))
      d1 == Set(ctx, "schema_version", S("i:1"))
      top == Package(c, d1, "")
      outs == IF Multi(d1) THEN Members(Get(top.d, "outputs")) ELSE <<>>
      conv == [i \in 1..Len(outs) |-> Package(c, outs[i], "/outputs/" \o ToString(i - 1))]
      d2 == IF Multi(d1)
            THEN Rename(Set(top.d, "outputs", L([i \in 1..Len(outs) |-> Sorted(OutputNames(conv[i].d), TopOrder)])), "package", "recipe")
            ELSE top.d
  IN R(Sorted(d2, TopOrder),
       SelMsgs(c) \o VarMsgs(c) \o top.m \o FlattenSeq([i \in 1..Len(conv) |-> conv[i].m]))

-----------------------------------------------------------------------------
(* Comments *)

RECURSIVE At(_, _)
At(d, p) ==
  IF p = <<>> THEN TRUE
  ELSE IF d.t = "m" THEN Has(d, Head(p)) /\ At(Get(d, Head(p)), Tail(p))
  ELSE IF d.t = "l" THEN \E i \in 1..Len(d.e) : ToString(i - 1) = Head(p) /\ At(d.e[i].d, Tail(p))
  ELSE FALSE
\* A comment whose line is gone is reported.
LostComments(c, d) == Map2(SelectSeq(CommentsTable(c.root), LAMBDA x : ~At(d, x.p)), LAMBDA x : Warn(x.c))

\* Sections that are rewritten. Lines found elsewhere are kept as they are.
RewrittenIn(d, sec, fields) == { <<sec, f>> : f \in fields }
Rewritten(c, d) ==
  {<<"test">>, <<"extras">>}
  \cup { <<"build", f>> : f \in {"skipt", "skips", "Skip", "skip", "run_exports", "ignore_run_exports", "merge_build_host", "no_link", "entry_points",
                    "ignore_prefix_files", "detect_binary_files_with_prefix", "rpaths", "binary_relocation", "missing_dso_whitelist",
                    "runpath_whitelist", "script_env", "python", "prefix_detection", "dynamic_linking"} \cup Range(BuildDeprecated)
                   \cup (IF Has(d, "build") /\ Has(Get(d, "build"), "script_env") THEN {"script"} ELSE {}) }
  \cup { <<"requirements", f>> : f \in {"run_constrained", "run_constraints"} }
  \cup { <<"about", f>> : f \in {"home", "dev_url", "doc_url", "license", "summary"} \cup Range(AboutDeprecated) }
SourceFields == {"fn", "folder", "git_url", "git_tag", "git_rev", "git_depth"}
\* Lines that are kept: of paths [p, n] that no rewritten section covers.
Covered(c, d, p) ==
  LET out == Len(p) >= 2 /\ p[1] = "outputs"
      q == IF out THEN SubSeq(p, 3, Len(p)) ELSE p
      base == IF out THEN D0(c, Lookup(c.root, SubSeq(p, 1, 2))[1], <<>>, TRUE) ELSE d
  IN \/ \E w \in Rewritten(c, base) : IsPfx(w, q)
     \/ q # <<>> /\ q[1] = "source" /\ (\E i \in 2..Len(q) : q[i] \in SourceFields)
     \/ ~out /\ Multi(d) /\ q # <<>> /\ q[1] = "package"
     \/ out /\ q # <<>> /\ q[1] \in {"name", "version", "package"}
LineOf(n, listed) ==
  (IF listed THEN "" ELSE n.k \o ":") \o (IF n.t \in {"sca", "blk"} THEN (IF listed THEN "" ELSE " ") \o n.r ELSE "") \o Cm(n.m)
KeptLines(c) ==
  LET d == D0(c, c.root, <<>>, FALSE)
      ok(x) == /\ ~Covered(c, d, x.p)
               /\ ~x.e
               /\ ~(x.n.t = "sca" /\ x.n.v \in DOMAIN c.jin)
               /\ ~(x.n.t = "blk" /\ x.n.v \in DOMAIN c.jin)
               /\ ~(x.n.m.s # "" /\ ((x.n.t = "sca" /\ IsBool(x.n.v)) \/ (IsLeaf(x.n) /\ ListedIn(c.root, x.p))))
  IN Map2(SelectSeq(All(c.root), ok), LAMBDA x : LineOf(x.n, ListedIn(c.root, x.p)))
RECURSIVE ComLines(_, _, _)
\* Lines with only a comment are kept with the section that they are in.
ComLines(c, n, p) ==
  IF n.t \notin {"map", "seq"} \/ Covered(c, D0(c, c.root, <<>>, FALSE), p) THEN <<>>
  ELSE LET vi == VirtIdx(n.c)
           here == Map2(SelectSeq(n.c, IsCom), LAMBDA x : x.r)
       IN here \o FlattenSeq([i \in 1..Len(vi) |->
                      ComLines(c, n.c[vi[i]], Append(p, IF n.t = "map" THEN n.c[vi[i]].k ELSE ToString(i - 1)))])

=============================================================================
