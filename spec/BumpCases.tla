----------------------------- MODULE BumpCases ------------------------------
(* Decides recorded runs of `bump-recipe`. *)
EXTENDS Bump, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES_FILE)
VARIABLE k
Expected(c) ==
  CASE c.what = "usage" -> [code |-> 2, st |-> c.init, asked |-> None]
    [] c.what = "io" -> [code |-> 5, st |-> c.init, asked |-> None]
    [] c.what = "parse" -> [code |-> 102, st |-> c.init, asked |-> None]
    [] OTHER -> BumpRecipe(c.init, c)
\* Milliseconds that must pass between the downloads of one source
Waits(n) == (n * (n + 1)) \div 2
MinTime(c, r) ==
  LET q == IF r.asked = None THEN {} ELSE Requests(r.asked[1], c)
      w == { IF x.n = RetryLimit /\ r.code = 108 THEN 0 ELSE Waits(x.n - 1) * c.interval : x \in q }
  IN CHOOSE m \in w \cup {0} : \A y \in w : y <= m
Clauses(c) ==
  LET r == Expected(c)  o == c.obs
      saved == r.code = 0 /\ ~c.dry
  IN [fails |-> { x \in {"code", "text", "file", "requests", "others", "pace"} :
       ~ CASE x = "code" -> o.code = r.code
           [] x = "text" -> r.code # 0 \/ (IF c.dry THEN o.out ELSE o.file) = RText(r.st)
           [] x = "file" -> saved \/ o.same
           [] x = "others" -> o.others = <<>>
           [] x = "requests" -> LET q == IF r.asked = None THEN {} ELSE Requests(r.asked[1], c)
                                IN IF r.code # 108 THEN Range(o.requests) = q
                                   ELSE Range(o.requests) \subseteq q
           [] x = "pace" -> o.ms >= MinTime(c, r) },
      code |-> r.code, text |-> IF r.code = 0 THEN RText(r.st) ELSE <<>>]
Init == /\ k \in 1..Len(Cases)
        /\ LET f == Clauses(Cases[k]) IN f.fails # {} => PrintT("FAIL " \o ToJson([k |-> k, want |-> f]))
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
=============================================================================
