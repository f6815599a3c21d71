------------------------------ MODULE SpdxCases ------------------------------
(* Decides recorded matches of license fields. *)
EXTENDS Spdx, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES_FILE)
Tbl == Input.tbl
Cases == Input.cases
VARIABLE k
Init == /\ k \in 1..Len(Cases)
        /\ LET c == Cases[k]  m == Matches(Tbl, c.field, c.close)
           IN c.got \notin m => PrintT("FAIL " \o ToJson([k |-> k, want |-> m]))
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
=============================================================================
