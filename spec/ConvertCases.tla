---------------------------- MODULE ConvertCases ----------------------------
(* Decides recorded conversions of the real code. *)
EXTENDS Convert, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES_FILE)
VARIABLE k

Count(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
SubBag(s, t) == \A i \in 1..Len(s) : Count(s, s[i]) <= Count(t, s[i])
\* Messages: as many of each category as expected, and each names its subject.
MsgsOk(want, got) ==
  /\ \A cat \in {"warning", "error", "exception"} :
       Cardinality({ i \in 1..Len(want) : want[i].c = cat }) = Cardinality({ i \in 1..Len(got) : got[i].c = cat })
  /\ \A i \in 1..Len(want) :
       Count(want, want[i]) <= Cardinality({ j \in 1..Len(got) : got[j].c = want[i].c /\ want[i].s \in Range(got[j].s) })
Keys(d) == Map2(d.e, LAMBDA x : x.k)
\* The order of the keys of a section
OrderOk(want, got, path) ==
  LET RECURSIVE Walk2(_, _, _)
      Walk2(a, b, p) ==
        IF p = <<>> THEN a.t # "m" \/ Keys(a) = Keys(b)
        ELSE ~Has(a, Head(p)) \/ (Has(b, Head(p)) /\ Walk2(Get(a, Head(p)), Get(b, Head(p)), Tail(p)))
  IN Walk2(want, got, path)
SectionsOk(want, got) ==
  /\ OrderOk(want, got, <<>>)
  /\ \A s \in {"source", "build", "context"} : OrderOk(want, got, <<s>>)
  /\ Has(want, "source") /\ Get(want, "source").t = "l" =>
       \A i \in 1..Len(Get(want, "source").e) : OrderOk(Get(want, "source").e[i].d, Get(got, "source").e[i].d, <<>>)
AllOrdersOk(want, got) ==
  /\ SectionsOk(want, got)
  /\ Has(want, "outputs") =>
       \A i \in 1..Len(Get(want, "outputs").e) : SectionsOk(Get(want, "outputs").e[i].d, Get(got, "outputs").e[i].d)

Result(c) ==
  LET w == Converted(c)
      msgs == w.m \o LostComments(c, w.d)
      same == SameData(w.d, c.obs.data)
      order == same => AllOrdersOk(w.d, c.obs.data)
      m == MsgsOk(msgs, c.obs.msgs)
      lines == KeptLines(c) \o ComLines(c, c.root, <<>>)
      kept == SubBag(lines, c.obs.lines)
  IN [ok |-> same /\ order /\ m /\ kept /\ c.obs.again /\ c.obs.source /\ c.obs.v1, same |-> same, order |-> order, msgs |-> m, kept |-> kept,
      again |-> c.obs.again, source |-> c.obs.source, v1 |-> c.obs.v1,
      data |-> IF same THEN "" ELSE ToJson(w.d), want_msgs |-> IF m THEN <<>> ELSE msgs,
      lost |-> IF kept THEN <<>> ELSE SelectSeq(lines, LAMBDA x : Count(lines, x) > Count(c.obs.lines, x))]
Init == /\ k \in 1..Len(Cases)
        /\ LET r == Result(Cases[k]) IN ~r.ok => PrintT("FAIL " \o ToJson([k |-> k, want |-> r]))
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
=============================================================================
