-------------------------------- MODULE Spdx --------------------------------
(***************************************************************************)
(* Matching of license fields. `tbl` maps a license name or ID to the set  *)
(* of IDs it stands for. `close` holds the entries that resemble the field *)
(* enough (similarity of at least 0.6), with their scores.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

LowerCase == "abcdefghijklmnopqrstuvwxyz"
UpperCase == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpMap == [ch \in { SubSeq(LowerCase, i, i) : i \in 1..26 } |-> LET i == CHOOSE i \in 1..26 : SubSeq(LowerCase, i, i) = ch IN SubSeq(UpperCase, i, i)]
Up(c) == IF c \in DOMAIN UpMap THEN UpMap[c] ELSE c
Blank == {" ", "\t", "\n"}
Separator == Blank \cup {"(", ")"}

\* The field as a sequence of upper case characters
Chars(s) == [i \in 1..Len(s) |-> Up(SubSeq(s, i, i))]
RECURSIVE Join(_, _, _)
Join(cs, i, j) == IF i > j THEN "" ELSE cs[i] \o Join(cs, i + 1, j)
IsTok(cs, i, j) ==
  /\ \A n \in i..j : cs[n] \notin Separator
  /\ (i = 1 \/ cs[i - 1] \in Separator)
  /\ (j = Len(cs) \/ cs[j + 1] \in Separator)
\* The words AND, OR and WITH (of 2 to 4 characters)
HasOperator(cs) == \E i \in 1..Len(cs) : \E n \in 2..4 : i + n - 1 <= Len(cs) /\ IsTok(cs, i, i + n - 1) /\ Join(cs, i, i + n - 1) \in {"AND", "OR", "WITH"}
HasComma(cs) == \E i \in 1..Len(cs) : cs[i] = ","
Stripped(cs) ==
  LET S == { i \in 1..Len(cs) : cs[i] \notin Blank }
  IN IF S = {} THEN "" ELSE Join(cs, CHOOSE i \in S : \A j \in S : i <= j, CHOOSE i \in S : \A j \in S : i >= j)
Corrections == ("BSD 2-CLAUSE \"SIMPLIFIED\"" :> "BSD-2-Clause") @@ ("UNLIMITED" :> "NOASSERTION")

Best(close) == { i \in 1..Len(close) : \A j \in 1..Len(close) : close[j].score <= close[i].score }
\* The results that are right. "" stands for none.
Matches(tbl, field, close) ==
  LET cs == Chars(field)
  IN IF field \in DOMAIN tbl THEN { tbl[field][i] : i \in 1..Len(tbl[field]) }
     ELSE IF HasOperator(cs) \/ HasComma(cs) THEN {""}
     ELSE IF Stripped(cs) \in DOMAIN Corrections THEN {Corrections[Stripped(cs)]}
     ELSE IF close = <<>> THEN {""}
     ELSE UNION { { tbl[close[i].k][j] : j \in 1..Len(tbl[close[i].k]) } : i \in Best(close) }
=============================================================================
