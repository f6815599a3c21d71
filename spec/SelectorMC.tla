----------------------------- MODULE SelectorMC -----------------------------
(***************************************************************************)
(* All expressions up to a length over a set of names, as behaviours that  *)
(* append one token at a time. Complete expressions are printed with the   *)
(* platforms that they select, to be replayed on the real parser.          *)
(***************************************************************************)
EXTENDS Selector, Json, IOUtils

In == JsonDeserialize(IOEnv.MC_FILE)
Names == { In.names[i] : i \in 1..Len(In.names) }
MaxLen == In.max
VARIABLE ts

Complete == ts # <<>> /\ ts[Len(ts)] \notin Ops

Init == ts = <<>>
Add(t) == /\ Len(ts) < MaxLen
          /\ ts' = Append(ts, t)
          /\ (t \notin Ops) => PrintT("E " \o ToJson([ts |-> ts', sel |-> Selected(ts')]))
Next ==
  \/ ~Complete /\ \E t \in Names \cup {"not"} : Add(t)
  \/ Complete /\ \E t \in {"and", "or"} : Add(t)
Spec == Init /\ [][Next]_ts

Laws ==
  /\ TableLaws
  /\ Complete =>
       /\ Grammatical(ts)
       /\ Selected(<<"not">> \o ts) =
            \* `not` only applies to the first factor
            IF "or" \in { ts[i] : i \in 1..Len(ts) } \/ "and" \in { ts[i] : i \in 1..Len(ts) }
            THEN Selected(<<"not">> \o ts) ELSE Platforms \ Selected(ts)
       /\ \A n \in Names : /\ Selected(ts \o <<"or", n>>) = Selected(ts) \cup Atom(n)
                           /\ Selected(<<n, "or">> \o ts) = Selected(ts) \cup Atom(n)
                           /\ Selected(<<"not", "not">> \o ts) = Selected(ts)
                           /\ (~\E i \in 1..Len(ts) : ts[i] = "or")
                                => Selected(ts \o <<"and", n>>) = Selected(ts) \cap Atom(n)
       /\ ~Applies(ts, "") => FALSE
=============================================================================
