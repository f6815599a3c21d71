----------------------------- MODULE GraphCases -----------------------------
(***************************************************************************)
(* Decides what the real code makes of directories of recipes: statistics, *)
(* lookups, plots and sessions of the shell.                               *)
(***************************************************************************)
EXTENDS Graph, Json, IOUtils
D == INSTANCE RecipeDeps

Input == JsonDeserialize(IOEnv.CASES_FILE)
Cases == Input.cases
Infos == Input.infos

UpperC == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerC == "abcdefghijklmnopqrstuvwxyz"
LowMap == [ch \in { SubSeq(UpperC, i, i) : i \in 1..26 } |-> LET i == CHOOSE i \in 1..26 : SubSeq(UpperC, i, i) = ch IN SubSeq(LowerC, i, i)]
RECURSIVE ToLower(_)
ToLower(s) == IF s = "" THEN "" ELSE LET c == SubSeq(s, 1, 1) IN (IF c \in DOMAIN LowMap THEN LowMap[c] ELSE c) \o ToLower(SubSeq(s, 2, Len(s)))

Needed(ds, tys) == { d.nm : d \in { x \in Range1(ds) : x.ty \in tys } }
Reduce(f) ==
  LET m == D!DepMap(f.st, Infos[f.st.ver + 1])
  IN [id |-> f.sha, exc |-> m.exc,
      pkgs |-> [i \in 1..Len(m.e) |-> [n |-> m.e[i].n, build |-> Needed(m.e[i].ds, {"BUILD", "HOST"}), test |-> Needed(m.e[i].ds, {"RUN", "TESTS"})]]]
\* Files with the same content are one recipe.
Recipes(fs) == { Reduce(f) : f \in { x \in Range1(fs) : x.kind = "good" } }
Broken(fs) == { f.path : f \in { x \in Range1(fs) : x.kind = "bad" } }

SetOf(s, S) == Range1(s) = S /\ Len(s) = Cardinality(S)
StatsOk(rs, bad, s) ==
  /\ SetOf(s.dups, Duplicates(rs))
  /\ SetOf(s.failed, bad)
  /\ SetOf(s.fdeps, { [id |-> i, names |-> <<"Unknown">>] : i \in FailedIds(rs) })
  /\ s.parsed = Cardinality(rs)
  /\ s.total = Cardinality(rs) + Cardinality(bad)
  /\ s.packages = Cardinality(AllNames(rs))

Pairs(s) == { <<s[i][1], s[i][2]>> : i \in 1..Len(s) }
Draw(d) == [nodes |-> Range1(d.nodes), edges |-> Pairs(d.edges)]

\* Percentages are in hundredths, rounded.
RateOk(failed, total, pct) == LET x == pct * total - 10000 * (total - failed) IN 2 * x <= total + 1 /\ 2 * x >= -total - 1
IntroOk(rs, bad, c) ==
  LET n == Cardinality(rs) b == Cardinality(bad) f == Cardinality(FailedIds(rs))
  IN c.failed = b /\ c.total = n + b /\ RateOk(b, n + b, c.pct) /\ c.ffailed = f /\ c.ftotal = n /\ RateOk(f, n, c.fpct)

Words(st) == [i \in 1..Len(st.w) |-> ToLower(st.w[i])]
StepOk(rs, bad, build, test, st) ==
  LET w == Words(st)
      r == Respond(rs, w)
  IN CASE r.kind = "stats" -> st.kind = "stats" /\ StatsOk(rs, bad, st.stats)
       [] r.kind = "whole" -> st.kind = "plot" /\ WholeOk(rs, IF w[2] = "build" THEN build ELSE test, Draw(st.draw))
       [] r.kind = "part" -> st.kind = "plot" /\ PartOk(IF w[2] = "build" THEN build ELSE test, w[3], w[4], Draw(st.draw))
       [] OTHER -> st.kind = r.kind /\ st.arg = r.arg
\* The session ends with the first line that asks for it, or with the input.
Quits(rs, st) == Respond(rs, Words(st)).kind = "exit"
SessionOk(rs, sh) ==
  LET n == Len(sh.steps) IN
  /\ \A i \in 1..n-1 : ~Quits(rs, sh.steps[i])
  /\ IF n > 0 /\ Quits(rs, sh.steps[n]) THEN sh.exit = 0 ELSE n = sh.lines /\ sh.exit \in {0, 1}

LibFails(rs, bad, o) ==
  LET build == Pairs(o.build.edges) test == Pairs(o.test.edges) IN
  (IF o.truth # (rs # {}) THEN {"bool"} ELSE {})
  \cup (IF ~StatsOk(rs, bad, o.stats) THEN {"stats"} ELSE {})
  \cup (IF ~EdgesOk(rs, build, test) THEN {"edges"} ELSE {})
  \cup (IF ~WholeOk(rs, build, Draw(o.build)) \/ ~WholeOk(rs, test, Draw(o.test)) THEN {"whole"} ELSE {})
  \cup (IF \E i \in 1..Len(o.names) : o.names[i].got # (o.names[i].n \in AllNames(rs)) THEN {"contains"} ELSE {})
  \cup (IF \E i \in 1..Len(o.parts) : ~PartOk(IF o.parts[i].ty = "build" THEN build ELSE test, o.parts[i].dir, o.parts[i].pkg, Draw(o.parts[i].draw)) THEN {"part"} ELSE {})
ShellFails(rs, bad, sh) ==
  IF rs = {} THEN IF sh.exit = 2 /\ sh.steps = <<>> /\ sh.named THEN {} ELSE {"usage"}
  ELSE LET build == Pairs(sh.build) test == Pairs(sh.test) IN
       (IF ~IntroOk(rs, bad, sh.intro) THEN {"intro"} ELSE {})
       \cup (IF sh.seen /\ ~EdgesOk(rs, build, test) THEN {"shell edges"} ELSE {})
       \cup (IF ~SessionOk(rs, sh) THEN {"session"} ELSE {})
       \cup (IF \E i \in 1..Len(sh.steps) : ~StepOk(rs, bad, build, test, sh.steps[i]) THEN {"step"} ELSE {})

VARIABLE k
Init == /\ k \in 1..Len(Cases)
        /\ LET c == Cases[k]
               rs == Recipes(c.files)
               bad == Broken(c.files)
               f == LibFails(rs, bad, c.lib) \cup ShellFails(rs, bad, c.shell)
           IN f # {} => PrintT("FAIL " \o ToJson([k |-> k, want |-> [fails |-> f, recipes |-> rs, broken |-> bad]]))
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
=============================================================================
