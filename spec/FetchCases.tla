----------------------------- MODULE FetchCases -----------------------------
(* Decides recorded fetches from git repositories and recorded uses of `from_recipe`. *)
EXTENDS Fetch, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES_FILE)
VARIABLE k
TreeObs(o) == { Entry(o.tree[j].t, o.tree[j].p, o.tree[j].v, o.tree[j].x) : j \in 1..Len(o.tree) }
GitBad(c) ==
  LET o == c.obs  ret == GitRet(c.repo, c.target)
  IN { x \in {"before", "ret", "after", "tree", "repo"} :
       ~ CASE x = "before" -> o.before = "FetchRequiredError"
           [] x = "ret" -> o.ret = ret
           [] x = "after" -> o.after = (IF ret = "ok" THEN "ok" ELSE "FetchRequiredError")
           [] x = "tree" -> (ret = "ok" /\ o.after = "ok") =>
                LET want == GitTree(c.repo, Wanted(c.repo, c.target))
                IN IF c.dirty THEN { e \in want : e.t = "f" } \subseteq TreeObs(o) ELSE TreeObs(o) = want
           [] x = "repo" -> o.same }
RecipeBad(c) ==
  LET o == c.obs  ret == FromRecipeRet(c)
  IN { x \in {"ret", "lazy", "sources"} :
       ~ CASE x = "ret" -> o.ret = ret
           [] x = "lazy" -> o.lazy
           [] x = "sources" -> o.ret # "ok" \/ ret # "ok" \/ (Range(o.sources) = FromRecipe(c) /\ Cardinality(Range(o.sources)) = Len(o.sources)) }
Bad(c) == IF c.kind = "git" THEN GitBad(c) ELSE RecipeBad(c)
Init == /\ k \in 1..Len(Cases)
        /\ LET f == Bad(Cases[k]) IN f # {} => PrintT("FAIL " \o ToJson([k |-> k,
              want |-> [fails |-> f, expected |-> IF Cases[k].kind = "git" THEN <<GitRet(Cases[k].repo, Cases[k].target)>> ELSE SetToSeq(FromRecipe(Cases[k]))]]))
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
=============================================================================
