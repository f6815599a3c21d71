-------------------------------- MODULE Fetch --------------------------------
(***************************************************************************)
(* Fetchers of source code. A fetcher is new, or was fetched at least once *)
(* with success. What it holds can be read only then. A server answers a   *)
(* fetch with a response                                                   *)
(*   [kind, type, sha, members]                                            *)
(* of kind "ok" (an archive), "fails" (nothing usable), "maybe" (damaged   *)
(* in a way that need not show) or "hostile" (an archive with members that *)
(* point out of it).                                                       *)
(* A git repository has commits (trees), branches, tags and a head.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

None == <<>>
Some(x) == <<x>>

-----------------------------------------------------------------------------
(* Archives: members [t |-> f, d, l (symbolic), h (hard) or x (hostile), p |-> path, v |-> content or target, x |-> executable] *)

Entry(t, p, v, x) == [t |-> t, p |-> p, v |-> v, x |-> x]
Parents(p) == { SubSeq(p, 1, n) : n \in 1..(Len(p) - 1) }
\* The last member of a path is the one that counts.
IsLast(ms, i) == ~\E j \in (i + 1)..Len(ms) : ms[j].p = ms[i].p
Files(ms) == { i \in 1..Len(ms) : ms[i].t \in {"f", "l"} /\ IsLast(ms, i) }
Target(ms, i) == CHOOSE j \in 1..Len(ms) : ms[j].p = ms[i].v /\ ms[j].t = "f" /\ IsLast(ms, j)
Tree(ms, exec) ==
  LET Ex(m) == exec /\ m.x
      leaves == { Entry(ms[i].t, ms[i].p, ms[i].v, ms[i].t = "f" /\ Ex(ms[i])) : i \in Files(ms) }
      links == { Entry("f", ms[i].p, ms[Target(ms, i)].v, Ex(ms[Target(ms, i)])) : i \in { j \in 1..Len(ms) : ms[j].t = "h" } }
      dirs == UNION { IF ms[i].t = "x" THEN {} ELSE Parents(ms[i].p) \cup (IF ms[i].t = "d" THEN {ms[i].p} ELSE {}) : i \in 1..Len(ms) }
  IN leaves \cup links \cup { Entry("d", p, <<>>, FALSE) : p \in dirs }
TreeOf(r) == Tree(r.members, r.type = "TARBALL")

-----------------------------------------------------------------------------
(* The life of a fetcher *)

\* fetched: once with success. last: the response of the last fetch, if its result is known
New(name) == [name |-> name, fetched |-> FALSE, last |-> None]
\* What a fetch may return
FetchRets(r) == CASE r.kind = "ok" -> {"ok"} [] r.kind = "fails" -> {"FetchError"} [] OTHER -> {"ok", "FetchError"}
\* ret: what it did return
Fetch(s, r, ret) ==
  IF ret # "ok" THEN [s EXCEPT !.last = None]
  ELSE [s EXCEPT !.fetched = TRUE, !.last = IF r.kind \in {"ok", "hostile"} THEN Some(r) ELSE None]
\* Getters: which results are right
ReadRets(s) == IF ~s.fetched THEN {"FetchRequiredError"} ELSE IF s.last # None THEN {"ok"} ELSE {"ok", "FetchRequiredError"}
Known(s) == s.fetched /\ s.last # None
Required(s) == TreeOf(s.last[1])
\* A symbolic link in a directory n levels deep stays within the tree, wherever it points to.
RECURSIVE Within(_, _)
Within(n, v) == IF v = <<>> THEN TRUE
                ELSE CASE v[1] = ".." -> n > 0 /\ Within(n - 1, Tail(v))
                       [] v[1] \in {"", "."} -> Within(n, Tail(v))
                       [] OTHER -> Within(n + 1, Tail(v))
Harmless(e) == CASE e.t \in {"f", "d"} -> TRUE
                 [] e.t = "l" -> e.v[1] # "" /\ Within(Len(e.p) - 1, e.v)
                 [] OTHER -> FALSE
\* Archives with hostile members may be refused, or be read without these members or with harmless ones in their place.
PathOk(s, tree) ==
  Known(s) => /\ Required(s) \subseteq tree
              /\ \A e \in tree : Harmless(e)
              /\ (s.last[1].kind = "ok" => tree = Required(s))
ShaOk(s, sha) == Known(s) => sha = s.last[1].sha
TypeOk(s, type) == Known(s) => type = s.last[1].type

-----------------------------------------------------------------------------
(* git *)

Has(f, k) == k # "" /\ k \in DOMAIN f
\* The commit that is asked for: the tag counts more than the revision, and that more than the branch. 0: there is none
Wanted(repo, t) ==
  CASE t.tag # "" -> IF Has(repo.tags, t.tag) THEN repo.tags[t.tag] ELSE 0
    [] t.tag = "" /\ t.rev # "" -> IF Has(repo.revs, t.rev) THEN repo.revs[t.rev] ELSE 0
    [] t.tag = "" /\ t.rev = "" /\ t.branch # "" -> IF Has(repo.branches, t.branch) THEN repo.branches[t.branch] ELSE 0
    [] OTHER -> repo.head
GitTree(repo, n) == LET fs == repo.commits[n]
                    IN { Entry("f", fs[i].p, fs[i].v, fs[i].x) : i \in 1..Len(fs) }
                       \cup { Entry("d", p, <<>>, FALSE) : p \in UNION { Parents(fs[i].p) : i \in 1..Len(fs) } }
GitRet(repo, t) == IF repo.missing \/ Wanted(repo, t) = 0 THEN "FetchError" ELSE "ok"

-----------------------------------------------------------------------------
(* The sources of a recipe: fields [k |-> name, v |-> text with variables replaced] of each source *)

Field(src, k) == LET S == { i \in 1..Len(src) : src[i].k = k } IN IF S = {} THEN "" ELSE src[CHOOSE i \in S : TRUE].v
GitKey(ver, k) == IF ver = 0 THEN k ELSE CASE k = "git_url" -> "git" [] k = "git_branch" -> "branch" [] k = "git_tag" -> "tag" [] k = "git_rev" -> "rev"
KindOf(ver, src) == IF Field(src, "url") # "" THEN "http" ELSE IF Field(src, GitKey(ver, "git_url")) # "" THEN "git" ELSE "none"
Supported(c) == { i \in 1..Len(c.sources) : KindOf(c.ver, c.sources[i]) # "none" }
RecipeName(c) == IF c.ver = 1 /\ c.multi THEN c.names.recipe ELSE c.names.package
NameOf(c, i) == (IF RecipeName(c) = "" THEN "Unknown Recipe" ELSE RecipeName(c)) \o (IF Len(c.sources) = 1 THEN "" ELSE "_" \o ToString(i - 1))
PathOf(c, i) == IF c.is_list THEN "/source/" \o ToString(i - 1) ELSE "/source"
TargetOf(c, i) == LET F(k) == Field(c.sources[i], GitKey(c.ver, k))
                  IN [tag |-> F("git_tag"), rev |-> F("git_rev"), branch |-> F("git_branch")]
\* What the fetcher of a source gets: the address that is asked, or the content of the commit
Got(c, i) ==
  IF KindOf(c.ver, c.sources[i]) = "http" THEN [ret |-> "ok", what |-> "http", v |-> Field(c.sources[i], "url"), n |-> 0]
  ELSE LET url == Field(c.sources[i], GitKey(c.ver, "git_url"))
           repo == c.repos[url]
           t == TargetOf(c, i)
       IN [ret |-> GitRet(repo, t), what |-> "git", v |-> "", n |-> IF GitRet(repo, t) = "ok" THEN Wanted(repo, t) ELSE 0]
FromRecipeRet(c) == IF Supported(c) # 1..Len(c.sources) /\ ~c.ignore THEN "FetchUnsupportedError" ELSE "ok"
FromRecipe(c) == { [path |-> PathOf(c, i), name |-> NameOf(c, i), got |-> Got(c, i)] : i \in Supported(c) }
=============================================================================
