--------------------------- MODULE RecipeDepsTrace ---------------------------
(* Decides recorded histories of dependency edits and dependency reads of the real code. *)
EXTENDS RecipeDeps, Json, IOUtils

Input == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Input.traces
Chk == Range(Input.chk)

VARIABLES tr, i, st, dead
vars == <<tr, i, st, dead>>

ClauseOk(c, s, info, o) ==
  CASE c = "text" -> o.text = RText(s)
    [] c = "deps" -> o.deps = DepMap(s, info)
    [] c = "pkgs" -> o.pkgs = Pkgs(s, info) /\ o.ppaths = PackagePaths(s.root) /\ o.multi = Multi(s.root)
                     /\ o.name = RecipeName(s, info)
    [] c = "dpaths" -> o.dpaths = DepPaths(s)
    [] OTHER -> TRUE
Fails(s, info, o, ret, want) ==
  { c \in Chk : c # "ret" /\ ~ClauseOk(c, s, info, o) } \cup (IF "ret" \in Chk /\ ret # want THEN {"ret"} ELSE {})
Report(t, j, cl, s, info, want) ==
  cl # {} => PrintT("FAIL " \o ToJson([tr |-> t, i |-> j, cl |-> cl, want |-> want, text |-> RText(s),
     detail |-> [deps |-> IF "deps" \in cl THEN DepMap(s, info) ELSE [exc |-> "", e |-> <<>>],
                 pkgs |-> IF "pkgs" \in cl THEN Pkgs(s, info) ELSE [exc |-> "", e |-> <<>>],
                 dpaths |-> IF "dpaths" \in cl THEN DepPaths(s) ELSE <<>>]]))

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ st = Traces[tr].init
  /\ LET f == Fails(st, Traces[tr].info, Traces[tr].obs, "", "")
     IN Report(tr, 0, f, st, Traces[tr].info, "") /\ dead = (f # {})
Next ==
  /\ ~dead
  /\ i < Len(Traces[tr].steps)
  /\ LET e == Traces[tr].steps[i + 1]
         info == Traces[tr].info
         r == ApplyD(st, info, e.op)
         f == Fails(r.st, info, e.obs, e.ret, r.ret)
     IN Report(tr, i + 1, f, r.st, info, r.ret) /\ st' = r.st /\ dead' = (f # {})
  /\ i' = i + 1
  /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
