------------------------------ MODULE Selector ------------------------------
(***************************************************************************)
(* Platforms, the names that select them, and selector expressions.        *)
(* An expression is a sequence of tokens. `not` binds tighter than `and`,  *)
(* which binds tighter than `or`. There are no parentheses. A name that is *)
(* not known selects nothing.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* [p: platform, os: its operating system, a: names of architectures that select it]
PlatformTable == {
  [p |-> "linux-32",      os |-> "linux", a |-> {"x86"}],
  [p |-> "linux-64",      os |-> "linux", a |-> {"x86", "x86_64"}],
  [p |-> "linux-aarch64", os |-> "linux", a |-> {}],
  [p |-> "linux-armv6l",  os |-> "linux", a |-> {"armv6l"}],
  [p |-> "linux-armv7l",  os |-> "linux", a |-> {"armv7l"}],
  [p |-> "linux-ppc64",   os |-> "linux", a |-> {"ppc64"}],
  [p |-> "linux-ppc64le", os |-> "linux", a |-> {"ppc64le"}],
  [p |-> "linux-riscv64", os |-> "linux", a |-> {}],
  [p |-> "linux-s390x",   os |-> "linux", a |-> {"s390x"}],
  [p |-> "osx-64",        os |-> "osx",   a |-> {"x86", "x86_64"}],
  [p |-> "osx-arm64",     os |-> "osx",   a |-> {"arm64"}],
  [p |-> "win-32",        os |-> "win",   a |-> {"x86"}],
  [p |-> "win-64",        os |-> "win",   a |-> {"x86", "x86_64"}],
  [p |-> "win-arm64",     os |-> "win",   a |-> {"arm64"}]
}
Platforms == { r.p : r \in PlatformTable }
OSNames == { r.os : r \in PlatformTable } \cup {"unix"}
ArchNames == UNION { r.a : r \in PlatformTable }

ByOS(o) == { r.p : r \in { x \in PlatformTable : x.os = o \/ (o = "unix" /\ x.os \in {"linux", "osx"}) } }
ByArch(a) == { r.p : r \in { x \in PlatformTable : a \in x.a } }

Ops == {"not", "and", "or"}
Known == Platforms \cup OSNames \cup ArchNames

\* What a name selects
Atom(t) == IF t \in Platforms THEN {t} ELSE ByOS(t) \cup ByArch(t)

\* Splits a sequence at every token `sep`
RECURSIVE SplitAt(_, _, _)
SplitAt(ts, sep, cur) ==
  IF ts = <<>> THEN <<cur>>
  ELSE IF Head(ts) = sep THEN <<cur>> \o SplitAt(Tail(ts), sep, <<>>)
  ELSE SplitAt(Tail(ts), sep, Append(cur, Head(ts)))

RECURSIVE Factor(_)
Factor(ts) == IF Head(ts) = "not" THEN Platforms \ Factor(Tail(ts)) ELSE Atom(Head(ts))
Term(ts) == LET fs == SplitAt(ts, "and", <<>>)
            IN { p \in Platforms : \A i \in 1..Len(fs) : p \in Factor(fs[i]) }
Selected(ts) ==
  IF ts = <<>> THEN {}
  ELSE LET as == SplitAt(ts, "or", <<>>) IN UNION { Term(as[i]) : i \in 1..Len(as) }

\* An expression that the grammar allows: `or` of `and` of `not`* name
GoodFactor(ts) == ts # <<>> /\ ts[Len(ts)] \notin Ops /\ \A i \in 1..Len(ts) - 1 : ts[i] = "not"
Grammatical(ts) ==
  LET as == SplitAt(ts, "or", <<>>)
  IN \A i \in 1..Len(as) : LET fs == SplitAt(as[i], "and", <<>>) IN \A j \in 1..Len(fs) : GoodFactor(fs[j])

\* A query without a platform has no constraints.
Applies(ts, platform) == platform = "" \/ platform \in Selected(ts)

\* Laws that the tables and expressions obey
TableLaws ==
  /\ ByOS("unix") = ByOS("linux") \cup ByOS("osx")
  /\ \A a, b \in {"linux", "osx", "win"} : a # b => ByOS(a) \cap ByOS(b) = {}
  /\ ByOS("unix") \cup ByOS("win") = Platforms
  /\ ByArch("x86_64") \subseteq ByArch("x86")
=============================================================================
