------------------------------- MODULE Subst -------------------------------
(***************************************************************************)
(* Substitution of the variables of a recipe in its values.                *)
(*                                                                         *)
(* The table of variables is the result of a history of set and delete     *)
(* operations. A value is a sequence of segments:                          *)
(*   [t |-> "lit", s |-> text]                                             *)
(*   [t |-> "var", s |-> text, n |-> name, low, up |-> BOOLEAN,            *)
(*    idx |-> "" or index]      {{ name[idx] | lower | upper }}            *)
(*   [t |-> "add", s |-> text, l |-> operand, r |-> operand]               *)
(*   [t |-> "other", s |-> text]  what can not be resolved                 *)
(* Operands of `+`: [k |-> "name" | "num" | "str", s |-> text].            *)
(* The result is read again as a YAML scalar.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES_FILE)
Cases == Input

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
CharSet(s) == { SubSeq(s, i, i) : i \in 1..Len(s) }
Letters == 1..26
LowerMap == [ch \in CharSet(Upper) |-> LET i == CHOOSE i \in Letters : SubSeq(Upper, i, i) = ch IN SubSeq(Lower, i, i)]
UpperMap == [ch \in CharSet(Lower) |-> LET i == CHOOSE i \in Letters : SubSeq(Lower, i, i) = ch IN SubSeq(Upper, i, i)]
RECURSIVE ConcatFrom(_, _)
ConcatFrom(ss, i) == IF i > Len(ss) THEN "" ELSE ss[i] \o ConcatFrom(ss, i + 1)
Concat(ss) == ConcatFrom(ss, 1)
MapStr(s, map) == Concat([i \in 1..Len(s) |-> LET ch == SubSeq(s, i, i) IN IF ch \in DOMAIN map THEN map[ch] ELSE ch])
ToLower(s) == MapStr(s, LowerMap)
ToUpper(s) == MapStr(s, UpperMap)

DigitChars == "0123456789"
DigitSet == CharSet(DigitChars)
IsDigits(s) == s # "" /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in DigitSet
DigitVal(ch) == (CHOOSE i \in 1..10 : SubSeq(DigitChars, i, i) = ch) - 1
RECURSIVE ToInt(_)
ToInt(s) == IF s = "" THEN 0 ELSE 10 * ToInt(SubSeq(s, 1, Len(s) - 1)) + DigitVal(SubSeq(s, Len(s), Len(s)))

Dots(s) == { i \in 1..Len(s) : SubSeq(s, i, i) = "." }
IsFloat(s) ==
  Cardinality(Dots(s)) = 1 /\ LET d == CHOOSE i \in Dots(s) : TRUE
                              IN IsDigits(SubSeq(s, 1, d - 1)) /\ (d = Len(s) \/ IsDigits(SubSeq(s, d + 1, Len(s))))
\* Trailing zeros of the fraction do not matter. The fraction may be empty.
RECURSIVE TrimZeros(_)
TrimZeros(s) ==
  IF SubSeq(s, Len(s), Len(s)) = "." THEN s \o "0"
  ELSE IF SubSeq(s, Len(s), Len(s)) = "0" /\ SubSeq(s, Len(s) - 1, Len(s) - 1) # "." THEN TrimZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* Octal and hexadecimal numbers, numbers with underscores or very long ones and numbers that start with a dot are left out.
Ambiguous(s) ==
  /\ Len(s) > 1
  /\ \/ SubSeq(s, 1, 1) \in {"0", "."}
     \/ /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in DigitSet \cup {"_", "."}
        /\ \/ IsFloat(s) /\ Len(s) > 15     \* digits that a floating point number does not keep
           \/ \E i \in 1..Len(s) : SubSeq(s, i, i) = "_"

\* A YAML scalar, type-tagged
Typed(s) ==
  IF Ambiguous(s) THEN "?"
  ELSE IF IsDigits(s) THEN "i:" \o s
  ELSE IF IsFloat(s) THEN "f:" \o TrimZeros(s)
  ELSE IF Len(s) > 5 THEN "s:" \o s
  ELSE IF ToLower(s) \in {"true", "yes", "on"} THEN "b:true"
  ELSE IF ToLower(s) \in {"false", "no", "off"} THEN "b:false"
  ELSE "s:" \o s

-----------------------------------------------------------------------------
(* The table of variables: [n |-> name, s |-> text of the value, num |-> is it a number] *)

Idx(tbl, n) == LET S == { i \in 1..Len(tbl) : tbl[i].n = n } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Do(tbl, op) ==
  LET i == Idx(tbl, op.n) e == [n |-> op.n, s |-> op.s, num |-> op.num]
  IN IF op.o = "set" THEN (IF i = 0 THEN Append(tbl, e) ELSE [tbl EXCEPT ![i] = e])
     ELSE IF i = 0 THEN tbl ELSE SubSeq(tbl, 1, i - 1) \o SubSeq(tbl, i + 1, Len(tbl))
RECURSIVE Table(_, _)
Table(tbl, ops) == IF ops = <<>> THEN tbl ELSE Table(Do(tbl, Head(ops)), Tail(ops))

-----------------------------------------------------------------------------
(* Expressions *)

Operand(tbl, o) ==
  IF o.k = "name" /\ Idx(tbl, o.s) # 0
  THEN [s |-> tbl[Idx(tbl, o.s)].s, num |-> tbl[Idx(tbl, o.s)].num]
  ELSE [s |-> o.s, num |-> o.k = "num"]      \* a name that is not known stands for itself

VarValue(e, g) ==
  LET v0 == e.s
      v1 == IF g.low THEN ToLower(v0) ELSE v0
      v2 == IF g.up THEN ToUpper(v1) ELSE v1
  IN IF g.idx = "" \/ ToInt(g.idx) >= Len(v2) THEN v2 ELSE SubSeq(v2, ToInt(g.idx) + 1, ToInt(g.idx) + 1)

\* The sum of two numbers, written as a number. Fractions have up to two digits, so that nothing is rounded.
Whole(s) == IF IsFloat(s) THEN ToInt(SubSeq(s, 1, (CHOOSE i \in Dots(s) : TRUE) - 1)) ELSE ToInt(s)
Cents(s) ==
  IF ~IsFloat(s) THEN 0
  ELSE LET f == SubSeq(s, (CHOOSE i \in Dots(s) : TRUE) + 1, Len(s)) IN IF Len(f) = 1 THEN 10 * ToInt(f) ELSE ToInt(f)
Sum(a, b) ==
  IF ~IsFloat(a) /\ ~IsFloat(b) THEN ToString(ToInt(a) + ToInt(b))
  ELSE LET c2 == Cents(a) + Cents(b)
           f == ToString(c2 % 100)
       IN ToString(Whole(a) + Whole(b) + c2 \div 100) \o "." \o (IF Len(f) = 1 THEN "0" \o f ELSE f)

\* What can not be resolved is kept. It is written in the V1 syntax.
Keep(ver, g) == IF ver = 0 THEN "$" \o g.s ELSE g.s

\* [s |-> text, q |-> it is a string whatever it looks like]
Seg(ver, tbl, g) ==
  CASE g.t = "lit" -> [s |-> g.s, q |-> FALSE]
    [] g.t = "other" -> [s |-> Keep(ver, g), q |-> FALSE]
    [] g.t = "var" -> [s |-> IF Idx(tbl, g.n) = 0 THEN Keep(ver, g) ELSE VarValue(tbl[Idx(tbl, g.n)], g), q |-> FALSE]
    [] g.t = "add" ->
         LET l == Operand(tbl, g.l) r == Operand(tbl, g.r)
         IN IF l.num /\ r.num THEN [s |-> Sum(l.s, r.s), q |-> FALSE]
            ELSE [s |-> l.s \o r.s, q |-> TRUE]

Result(ver, tbl, segs) ==
  IF Len(segs) = 1 /\ Seg(ver, tbl, segs[1]).q THEN "s:" \o Seg(ver, tbl, segs[1]).s
  ELSE Typed(Concat([i \in 1..Len(segs) |-> Seg(ver, tbl, segs[i]).s]))
\* Without substitution
Raw(segs) == Typed(Concat([i \in 1..Len(segs) |-> segs[i].s]))

-----------------------------------------------------------------------------
(* A behaviour: the operations on the table, one by one. After each, every value of the recipe was read. *)
VARIABLES c, i, tbl, dead
vars == <<c, i, tbl, dead>>

Wants(cs, t) == [v \in 1..Len(cs.vals) |-> [res |-> Result(cs.ver, t, cs.vals[v]), raw |-> Raw(cs.vals[v])]]
Bad(cs, j, w) == { v \in 1..Len(cs.vals) :
  \/ w[v].res # "?" /\ \E x \in 1..Len(cs.obs[j][v].got) : cs.obs[j][v].got[x] # w[v].res
  \/ cs.obs[j][v].raw # w[v].raw }
\* Reports what is wrong, and tells if there is something wrong.
Report(cs, j, t) ==
  LET w == Wants(cs, t) b == Bad(cs, j, w)
  IN IF b = {} THEN FALSE
     ELSE PrintT("FAIL " \o ToJson([k |-> c, i |-> j, bad |-> b, want |-> [v \in b |-> w[v]]]))

Init == /\ c \in 1..Len(Cases)
        /\ i = 1 /\ tbl = Cases[c].init
        /\ dead = Report(Cases[c], 1, Cases[c].init)
Next == /\ ~dead /\ i <= Len(Cases[c].ops)
        /\ tbl' = Do(tbl, Cases[c].ops[i])
        /\ dead' = Report(Cases[c], i + 1, tbl')
        /\ i' = i + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

\* The table never has a name twice.
NoDup == \A a, b \in 1..Len(tbl) : tbl[a].n = tbl[b].n => a = b
=============================================================================
