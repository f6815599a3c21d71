------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* A table of messages in three categories. All histories up to a depth    *)
(* are printed, with what every read must give, and replayed on the code.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Depth == JsonDeserialize(IOEnv.MC_FILE).depth
Texts == JsonDeserialize(IOEnv.MC_FILE).texts
Cats == {"exception", "error", "warning"}
VARIABLES tbl, hist
vars == <<tbl, hist>>

Empty == [c \in Cats |-> <<>>]
Plural(n, w) == ToString(n) \o " " \o w \o (IF n = 1 THEN "" ELSE "s")
\* What can be read. With exceptions only, the totals may be empty or speak of no errors and warnings.
Totals(t) == IF t = Empty THEN {""}
             ELSE {Plural(Len(t["error"]), "error") \o " and " \o Plural(Len(t["warning"]), "warning") \o " were found."}
                  \cup (IF t["error"] = <<>> /\ t["warning"] = <<>> THEN {""} ELSE {})
View(t) == [msgs |-> t, totals |-> Totals(t)]

Init == tbl = Empty /\ hist = <<>>
Add(c, m) == tbl' = [tbl EXCEPT ![c] = Append(@, m)] /\ hist' = Append(hist, [op |-> "add", c |-> c, m |-> m, view |-> View(tbl')])
Clear == tbl' = Empty /\ hist' = Append(hist, [op |-> "clear", c |-> "", m |-> "", view |-> View(tbl')])
Next == /\ Len(hist) < Depth
        /\ (\E c \in Cats, i \in 1..Len(Texts) : Add(c, Texts[i])) \/ Clear
        /\ Len(hist') = Depth => PrintT("B " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Lst == hist'[Len(hist')]
\* Categories are independent; nothing is lost, reordered or merged; only clearing removes messages.
Props == [][/\ \A c \in Cats : Lst.op = "add" /\ Lst.c # c => tbl'[c] = tbl[c]
            /\ Lst.op = "add" => tbl'[Lst.c] = Append(tbl[Lst.c], Lst.m)
            /\ Lst.op = "clear" => \A c \in Cats : tbl'[c] = <<>>]_vars
Count == LET adds(c) == { i \in 1..Len(hist) : hist[i].op = "add" /\ hist[i].c = c /\ \A j \in i..Len(hist) : hist[j].op # "clear" }
         IN \A c \in Cats : Len(tbl[c]) = Cardinality(adds(c))
=============================================================================
