---------------------------- MODULE CommandCases ----------------------------
(* Decides recorded runs of the commands `convert`, `patch` and `rattler-bulk-build`. *)
EXTENDS Commands, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES_FILE)
VARIABLE k
Set(s) == Range(s)
NoDup(s) == Cardinality(Range(s)) = Len(s)
SetIs(s, want) == NoDup(s) /\ Set(s) = want
MapFiles(c, F(_)) == Concat([i \in 1..Len(c.files) |-> F(c.files[i])])
N(S) == Cardinality(S)

-----------------------------------------------------------------------------
(* convert *)
SingleFails(c) ==
  LET f == c.files[1]
      o == c.obs
      done == f.c = "done"
      written == IF done /\ c.output # "" THEN { [path |-> c.output, text |-> f.content] } ELSE {}
  IN { x \in {"code", "stdout", "written", "warnings", "errors", "totals", "name", "reason"} :
       ~ CASE x = "code" -> o.code = Code(f)
           [] x = "stdout" -> o.out = (IF done /\ c.output = "" THEN f.content ELSE "")
           [] x = "written" -> SetIs(o.written, written)
           [] x = "warnings" -> SameBag(o.warns, Warns(f))
           [] x = "errors" -> SameBag(o.errs, Errs(f))
           [] x = "totals" -> Errs(f) \o Warns(f) = <<>> \/ Totals(Len(Errs(f)), Len(Warns(f))) \in Set(o.lines)
           [] x = "name" -> o.name = (done /\ c.output # "" /\ c.base # "recipe.yaml")
           [] x = "reason" -> done \/ o.lines # <<>> }

BulkFails(c) ==
  LET o == c.obs  s == o.stats  n == Len(c.files)
      ex == Where(c.files, Excepted)  er == Where(c.files, Failed)  wa == Where(c.files, Warned)  gd == Where(c.files, Good)
      errs == MapFiles(c, Errs)  warns == MapFiles(c, Warns)
      written == IF c.output = "" THEN {}
                 ELSE { [path |-> c.files[i].out, text |-> c.files[i].content] : i \in { j \in 1..n : c.files[j].c = "done" } }
  IN { x \in {"code", "written", "counts", "percent", "hist", "lists", "info"} :
       ~ CASE x = "code" -> o.code = BulkCode(s.psuccess, c.min)
           [] x = "written" -> SetIs(o.written, written)
           [] x = "counts" -> /\ s.files = n /\ s.processed = n /\ s.errors = Len(errs) /\ s.warnings = Len(warns)
                              /\ s.nexcept = N(ex) /\ s.nerrors = N(er) /\ s.nwarnings = N(wa)
                              /\ s.nsuccess = N(gd) /\ s.ntheory = N(gd)
           [] x = "percent" -> /\ Rounded(s.pexcept, N(ex), n) /\ Rounded(s.perrors, N(er), n) /\ Rounded(s.pwarnings, N(wa), n)
                               /\ Rounded(s.psuccess, N(gd), n) /\ Rounded(s.ptheory, N(gd), n)
           [] x = "hist" -> /\ SetIs(o.herr, Hist(errs)) /\ SetIs(o.hwarn, Hist(warns)) /\ o.hexcept = N(ex)
           [] x = "lists" -> o.lists = (~c.truncate) /\ (o.lists => SetIs(o.lexcept, ex) /\ SetIs(o.lerr, er) /\ SetIs(o.lwarn, wa))
           [] x = "info" -> o.command = "convert" /\ o.directory = c.directory }

ConvertFails(c) == IF c.files = <<>> THEN (IF c.obs.code = 2 /\ c.obs.written = <<>> /\ c.obs.lines # <<>> THEN {} ELSE {"empty"})
                   ELSE IF Len(c.files) = 1 THEN SingleFails(c) ELSE BulkFails(c)

-----------------------------------------------------------------------------
(* rattler-bulk-build. A build has [path, code, errs]. *)
BadBuild(f) == f.code # 0
RattlerFails(c) ==
  LET o == c.obs  s == o.stats  n == Len(c.files)  bad == Where(c.files, BadBuild)
      errs == MapFiles(c, LAMBDA f : f.errs)
      With(e) == Where(c.files, LAMBDA f : e \in Set(f.errs))
  IN IF n = 0 THEN (IF o.code = 3 /\ o.calls = <<>> /\ o.written = <<>> THEN {} ELSE {"empty"})
     ELSE { x \in {"code", "counts", "percent", "hist", "lists", "info", "calls", "log", "written"} :
       ~ CASE x = "code" -> o.code = BulkCode(s.psuccess, c.min)
           [] x = "counts" -> s.files = n /\ s.processed = n /\ s.errors = N(bad)
           [] x = "percent" -> Rounded(s.psuccess, n - N(bad), n) /\ Rounded(s.perrors, N(bad), n)
           [] x = "hist" -> SetIs(o.herr, Hist(errs))
           [] x = "lists" -> o.lists = (~c.truncate) /\ (o.lists => SetIs(o.lerr, bad))
           [] x = "info" -> o.command = "rattler-bulk-build" /\ o.directory = c.directory
           [] x = "calls" -> SetIs(o.calls, { <<"build", "-r", c.files[i].file>> \o c.args : i \in 1..n })
           [] x = "written" -> SetIs(o.written, IF c.log = "" THEN {} ELSE {c.log})
           [] x = "log" -> c.log = "" \/
                /\ SetIs([i \in 1..Len(o.log) |-> o.log[i].error], Set(errs))
                /\ \A i \in 1..Len(o.log) :
                     /\ SetIs(o.log[i].recipes, With(o.log[i].error)) /\ o.log[i].sorted
                     /\ o.log[i].count = N(With(o.log[i].error))
                     /\ i > 1 => o.log[i - 1].count >= o.log[i].count }

-----------------------------------------------------------------------------
(* patch: the longest prefix of the patches that succeed is applied *)
RECURSIVE RunPatches(_, _, _)
RunPatches(st, ops, j) ==
  IF j > Len(ops) THEN [code |-> 0, st |-> st]
  ELSE IF ops[j].op = "badpatch" THEN [code |-> 4, st |-> st]
  ELSE LET r == Apply(st, ops[j])
       IN IF r.ret = "F" THEN [code |-> 106, st |-> st] ELSE RunPatches(r.st, ops, j + 1)
PatchFails(c) ==
  LET o == c.obs
      r == RunPatches(c.init, c.ops, 1)
  IN CASE c.what = "json" -> { x \in {"code", "written"} : ~ CASE x = "code" -> o.code = 4 [] x = "written" -> o.written = <<>> }
       [] c.what = "parse" -> { x \in {"code", "written"} : ~ CASE x = "code" -> o.code = 102 [] x = "written" -> o.written = <<>> }
       [] c.what = "io" -> { x \in {"code", "written"} : ~ CASE x = "code" -> o.code = 5 [] x = "written" -> o.written = <<>> }
       [] c.what = "missing" -> { x \in {"code", "written"} : ~ CASE x = "code" -> o.code = 2 [] x = "written" -> o.written = <<>> }
       [] OTHER -> { x \in {"code", "text", "written", "reason"} :
            ~ CASE x = "code" -> o.code = r.code
                [] x = "text" -> o.text = RText(r.st)
                [] x = "written" -> Set(o.written) \subseteq { c.file }
                [] x = "reason" -> r.code = 0 \/ o.lines # <<>> }

Fails(c) == CASE c.kind = "convert" -> ConvertFails(c)
              [] c.kind = "rattler" -> RattlerFails(c)
              [] c.kind = "patch" -> PatchFails(c)
Init == /\ k \in 1..Len(Cases)
        /\ LET f == Fails(Cases[k]) IN f # {} => PrintT("FAIL " \o ToJson([k |-> k, want |-> f]))
Next == FALSE /\ k' = k
Spec == Init /\ [][Next]_k
=============================================================================
