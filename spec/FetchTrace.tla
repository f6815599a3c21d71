----------------------------- MODULE FetchTrace -----------------------------
(* Decides recorded histories of archive fetchers: several fetchers, any order of fetches and reads. *)
EXTENDS Fetch, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE).traces
VARIABLES tr, i, fs, dead
vars == <<tr, i, fs, dead>>

Resp(t, n) == Traces[t].responses[n]
TreeObs(o) == { Entry(o.tree[j].t, o.tree[j].p, o.tree[j].v, o.tree[j].x) : j \in 1..Len(o.tree) }
\* The clauses that fail. e: [op, f |-> fetcher, resp, ret, obs]
Bad(t, s, e) ==
  { c \in {"ret", "result", "outside"} :
    ~ CASE c = "ret" -> e.ret \in (CASE e.op = "fetch" -> FetchRets(Resp(t, e.resp))
                                     [] e.op \in {"path", "sha", "type"} -> ReadRets(s)
                                     [] OTHER -> {"ok"})
        [] c = "result" -> e.ret # "ok" \/
             (CASE e.op = "path" -> PathOk(s, TreeObs(e.obs)) /\ e.obs.inside
                [] e.op = "sha" -> ShaOk(s, e.obs.v)
                [] e.op = "type" -> TypeOk(s, e.obs.v)
                [] e.op = "str" -> e.obs.v = s.name
                \* the temporary directory lives as long as the fetcher and is private
                [] e.op = "new" -> e.obs.private
                [] e.op = "drop" -> e.obs.gone
                [] OTHER -> TRUE)
        \* nothing outside of the directories of the fetchers ever changes
        [] c = "outside" -> e.outside = <<>> }
Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ fs = [f \in 1..Traces[tr].n |-> New(Traces[tr].names[f])]
  /\ dead = FALSE
Next ==
  /\ ~dead /\ i < Len(Traces[tr].steps)
  /\ LET e == Traces[tr].steps[i + 1]
         b == Bad(tr, fs[e.f], e)
     IN /\ b # {} => PrintT("FAIL " \o ToJson([tr |-> tr, i |-> i + 1, cl |-> b, st |-> fs[e.f]]))
        /\ dead' = (b # {})
        /\ fs' = IF e.op = "fetch" /\ b = {} THEN [fs EXCEPT ![e.f] = Fetch(@, Resp(tr, e.resp), e.ret)] ELSE fs
  /\ i' = i + 1
  /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
