------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* What the commands that work on recipe files promise: exit codes, which  *)
(* files they write, what they report, and the statistics of bulk          *)
(* operations.                                                             *)
(*                                                                         *)
(* A file given to `convert` has an outcome                                *)
(*   [c |-> class, errs, warns |-> messages, content |-> converted text]   *)
(* where the class is the stage that ends the conversion: "read", "pre",   *)
(* "parse", "v1" (not convertible), "render" or "done".                    *)
(***************************************************************************)
EXTENDS Recipe

ClassCode == [read |-> 104, pre |-> 105, parse |-> 102, v1 |-> 106, render |-> 103]
Code(f) == IF f.c # "done" THEN ClassCode[f.c]
           ELSE IF f.errs # <<>> THEN 101
           ELSE IF f.warns # <<>> THEN 100 ELSE 0

Errs(f) == IF f.c = "done" THEN f.errs ELSE <<>>
Warns(f) == IF f.c = "done" THEN f.warns ELSE <<>>
Count(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])

Plural(n, w) == ToString(n) \o " " \o w \o (IF n = 1 THEN "" ELSE "s")
Totals(e, w) == Plural(e, "error") \o " and " \o Plural(w, "warning") \o " were found."

-----------------------------------------------------------------------------
(* Statistics of bulk operations *)

\* Rounded to two places. An exact tie may go either way.
Rounded(p, part, total) ==
  LET d == 100 * part - p * total IN 2 * d <= total /\ 2 * d >= 0 - total
\* Histogram: a set of [k |-> message, n |-> occurrences]
Hist(msgs) == { [k |-> msgs[i], n |-> Count(msgs, msgs[i])] : i \in 1..Len(msgs) }
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Where(fs, Test(_)) == { fs[i].path : i \in { j \in 1..Len(fs) : Test(fs[j]) } }
\* m: the lowest accepted success rate in hundredths
BulkCode(pct, m) == IF pct >= m THEN 0 ELSE 42

Excepted(f) == f.c # "done"
Failed(f) == Errs(f) # <<>>
Warned(f) == Warns(f) # <<>>
Good(f) == f.c = "done" /\ f.errs = <<>>
=============================================================================
