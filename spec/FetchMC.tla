------------------------------- MODULE FetchMC -------------------------------
(***************************************************************************)
(* All histories of two fetchers up to a depth, with two different         *)
(* archives and a failure. Printed to be replayed on the real code.        *)
(***************************************************************************)
EXTENDS Fetch, Json, IOUtils

Input == JsonDeserialize(IOEnv.MC_FILE)
Responses == Input.responses
Depth == Input.depth
N == Input.n
VARIABLES fs, hist, ret
vars == <<fs, hist, ret>>
Init == fs = [f \in 1..N |-> New("foo")] /\ hist = <<>> /\ ret = ""
Note(op, f, r) == hist' = Append(hist, [op |-> op, f |-> f, resp |-> r])
DoFetch(f, r) == \E x \in FetchRets(Responses[r]) : ret' = x /\ fs' = [fs EXCEPT ![f] = Fetch(@, Responses[r], x)] /\ Note("fetch", f, r)
DoRead(op, f) == \E x \in ReadRets(fs[f]) : ret' = x /\ UNCHANGED fs /\ Note(op, f, 1)
Next ==
  /\ Len(hist) < Depth
  /\ \E f \in 1..N : \/ \E r \in 1..Len(Responses) : DoFetch(f, r)
                     \/ \E op \in {"path", "sha", "type"} : DoRead(op, f)
  /\ Len(hist') = Depth => PrintT("B " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
LastOp == hist'[Len(hist')]
Fetches(h, f) == { j \in 1..Len(h) : h[j].op = "fetch" /\ h[j].f = f }
\* Nothing can be read before a fetch; reads change nothing; a fetch concerns its own fetcher only.
NeedsFetch == LastOp.op # "fetch" /\ Fetches(hist, LastOp.f) = {} => ret' = "FetchRequiredError"
ReadOnly == LastOp.op # "fetch" => fs' = fs
Own == \A f \in 1..N : f # LastOp.f => fs'[f] = fs[f]
Stays == \A f \in 1..N : fs[f].fetched => fs'[f].fetched
Props == [][NeedsFetch /\ ReadOnly /\ Own /\ Stays]_vars
\* What a fetcher holds is what its last successful fetch got.
Holds == \A f \in 1..N : Known(fs[f]) => \E j \in Fetches(hist, f) : Responses[hist[j].resp] = fs[f].last[1] /\ \A l \in Fetches(hist, f) : l <= j
=============================================================================
