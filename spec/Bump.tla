-------------------------------- MODULE Bump --------------------------------
(***************************************************************************)
(* Bumping a recipe: build number, version, hashes of the sources.         *)
(* A step gives [code |-> exit code or -1 to go on, st |-> recipe].        *)
(* Sources are downloaded from URLs in which variables are substituted     *)
(* after the version was changed. The table `sha` of a case maps a URL to  *)
(* the hash of what is found there and `fails` to the number of times that *)
(* a download fails before it succeeds.                                    *)
(***************************************************************************)
EXTENDS Integers, Recipe

RetryLimit == 5
HashVars == {"sha256", "hash", "hash_val", "hash_value"}
Go(st) == [code |-> 0 - 1, st |-> st]
Stop(code, st) == [code |-> code, st |-> st]

NodeOf(v, r) == [t |-> "sca", k |-> "", v |-> v, r |-> r, m |-> NoM, c |-> <<>>]
Str(s) == NodeOf("s:" \o s, s)
\* A string as the value of a variable
VarStr(st, s) == NodeOf("s:" \o s, IF st.ver = 0 THEN "\"" \o s \o "\"" ELSE s)
Num(n) == NodeOf("i:" \o ToString(n), ToString(n))

OnFail(st, root) == IF root = None THEN Stop(107, st) ELSE Go(Changed(st, root[1]))
SetAt(st, p, val) == OnFail(st, IF Exists(st.root, p) THEN PReplace(st.root, p, val) ELSE PAdd(st.root, p, val))

-----------------------------------------------------------------------------
(* Build number *)
BuildNumber == <<"build", "number">>
BumpBuild(st, increment) ==
  IF ~Exists(st.root, <<"build">>) THEN Stop(106, st)
  ELSE IF increment /\ Exists(st.root, BuildNumber)
  THEN LET n == Lookup(st.root, BuildNumber)[1]
           S == { i \in -10..1300 : n.t = "sca" /\ n.v = "i:" \o ToString(i) }
       IN IF S = {} THEN Stop(106, st) ELSE SetAt(st, BuildNumber, Num((CHOOSE i \in S : TRUE) + 1))
  ELSE SetAt(st, BuildNumber, Num(0))

(* Version *)
BumpVersion(st, version) ==
  IF VarIdx(Vars(st), "version") # 0 THEN Go([SetVar(st, "version", VarStr(st, version)) EXCEPT !.mod = TRUE])
  ELSE SetAt(st, <<"package", "version">>, Str(version))

(* Sources *)
Child(n, k) == LET S == { i \in 1..Len(n.c) : n.c[i].t # "com" /\ n.c[i].k = k } IN IF S = {} THEN None ELSE Some(n.c[CHOOSE i \in S : TRUE])
RawText(v) == SubSeq(v, 3, Len(v))
VarText(st, k) == LET i == VarIdx(Vars(st), k) IN RawText(Vars(st)[i].v)
RECURSIVE UrlOf(_, _)
UrlOf(st, segs) == IF segs = <<>> THEN ""
                   ELSE (IF Head(segs).var THEN VarText(st, Head(segs).s) ELSE Head(segs).s) \o UrlOf(st, Tail(segs))
SourceAt(st, c, p, n) ==
  IF n.t # "map" THEN <<>>
  ELSE IF Child(n, "url") # None THEN <<[p |-> p, http |-> TRUE, url |-> UrlOf(st, c.urls[Child(n, "url")[1].v])]>>
  ELSE IF Child(n, IF st.ver = 0 THEN "git_url" ELSE "git") # None THEN <<[p |-> p, http |-> FALSE, url |-> ""]>>
  ELSE <<>>
Sources(st, c) ==
  LET s == Lookup(st.root, <<"source">>)
  IN IF s = None THEN <<>>
     ELSE IF s[1].t = "map" THEN SourceAt(st, c, <<"source">>, s[1])
     ELSE IF s[1].t = "seq"
     THEN FlattenSeq([i \in 1..VirtLen(s[1].c) |-> SourceAt(st, c, <<"source", ToString(i - 1)>>, s[1].c[VirtIdx(s[1].c)[i]])])
     ELSE <<>>

Fails(c, url) == IF url \in DOMAIN c.fails THEN c.fails[url] ELSE 0
Broken(c, s) == Fails(c, s.url) >= RetryLimit
Http(ss) == SelectSeq(ss, LAMBDA s : s.http)
\* The hash is the value of a variable that the only source uses.
UsedHashVars(st) == { v \in HashVars : VarIdx(Vars(st), v) # 0 }
ByVariable(st, c, ss) ==
  /\ Cardinality(UsedHashVars(st)) = 1
  /\ Len(ss) = 1 /\ ss[1].http /\ ss[1].p = <<"source">>
  /\ <<"source", "sha256">> \in Range(VarRefs(st.root, c.refs, CHOOSE v \in UsedHashVars(st) : TRUE))
RECURSIVE SetHashes(_, _, _)
SetHashes(st, c, ss) ==
  IF ss = <<>> THEN Go(st)
  ELSE LET r == SetAt(st, Append(Head(ss).p, "sha256"), Str(c.sha[Head(ss).url]))
       IN IF r.code # 0 - 1 THEN r ELSE SetHashes(r.st, c, Tail(ss))
BumpHashes(st, c) ==
  LET ss == Sources(st, c)  hs == Http(ss)
  IN IF \E i \in 1..Len(hs) : Broken(c, hs[i]) THEN Stop(108, st)
     ELSE IF ByVariable(st, c, ss)
     THEN LET v == CHOOSE v \in UsedHashVars(st) : TRUE
          IN Go([SetVar(st, v, VarStr(st, c.sha[ss[1].url])) EXCEPT !.mod = TRUE])
     ELSE SetHashes(st, c, hs)
\* How often each URL is asked for.
Requests(st, c) ==
  LET hs == Http(Sources(st, c))
  IN { [url |-> hs[i].url, n |-> IF Broken(c, hs[i]) THEN RetryLimit ELSE Fails(c, hs[i].url) + 1] : i \in 1..Len(hs) }

-----------------------------------------------------------------------------
\* [code, st, asked |-> the state in which downloads are made, or None]
BumpRecipe(st, c) ==
  LET b == BumpBuild(st, c.build /\ ~c.has_target)
  IN IF b.code # 0 - 1 THEN [code |-> b.code, st |-> st, asked |-> None]
     ELSE IF ~c.has_target THEN [code |-> 0, st |-> b.st, asked |-> None]
     ELSE LET v == BumpVersion(b.st, c.target)
          IN IF v.code # 0 - 1 THEN [code |-> v.code, st |-> st, asked |-> None]
             ELSE LET h == BumpHashes(v.st, c)
                  IN IF h.code # 0 - 1 THEN [code |-> h.code, st |-> st, asked |-> Some(v.st)]
                     ELSE [code |-> 0, st |-> h.st, asked |-> Some(v.st)]
=============================================================================
