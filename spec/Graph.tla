------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* The dependency graph of a collection of recipes, and the shell in which *)
(* it is examined.                                                         *)
(*                                                                         *)
(* A recipe of the collection is reduced to [id, exc, pkgs]: the identity  *)
(* of its content, the reason why its dependencies are not known (or ""),  *)
(* and its packages, each with the names that it needs: [n, build, test].  *)
(* GraphCases derives that from the trees of the recipes.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

Range1(s) == { s[i] : i \in 1..Len(s) }
Names(r) == { p.n : p \in Range1(r.pkgs) }
Pkg(r, n) == CHOOSE p \in Range1(r.pkgs) : p.n = n
Edges(r, n, ty) == { <<n, d>> : d \in IF ty = "build" THEN Pkg(r, n).build ELSE Pkg(r, n).test }

(* Construction, one recipe after the other, in any order. The first recipe of a package wins. *)
NoGraph == [owner |-> <<>>, dups |-> {}, failed |-> {}, build |-> {}, test |-> {}]
AddRecipe(g, r) ==
  IF r.exc # "" THEN [g EXCEPT !.failed = @ \cup {r.id}]
  ELSE LET new == Names(r) \ DOMAIN g.owner
       IN [g EXCEPT !.owner = @ @@ [n \in new |-> r.id],
                    !.dups = @ \cup (Names(r) \cap DOMAIN g.owner),
                    !.build = @ \cup UNION { Edges(r, n, "build") : n \in new },
                    !.test = @ \cup UNION { Edges(r, n, "test") : n \in new }]

(* What every order gives. rs: the set of recipes *)
Known(rs) == { r \in rs : r.exc = "" }
AllNames(rs) == UNION { Names(r) : r \in Known(rs) }
Candidates(rs, n) == { r \in Known(rs) : n \in Names(r) }
Duplicates(rs) == { n \in AllNames(rs) : Cardinality(Candidates(rs, n)) > 1 }
FailedIds(rs) == { r.id : r \in rs \ Known(rs) }
\* Each package has the edges of one of the recipes that have it.
EdgesOk(rs, build, test) ==
  /\ \A n \in AllNames(rs) : \E r \in Candidates(rs, n) :
       { e \in build : e[1] = n } = Edges(r, n, "build") /\ { e \in test : e[1] = n } = Edges(r, n, "test")
  /\ \A e \in build \cup test : e[1] \in AllNames(rs)
GraphOk(rs, g) ==
  /\ DOMAIN g.owner = AllNames(rs) /\ g.dups = Duplicates(rs) /\ g.failed = FailedIds(rs)
  /\ EdgesOk(rs, g.build, g.test)

-----------------------------------------------------------------------------
(* Plots. A drawing is a pair of nodes and edges. *)
Ends(es) == { e[1] : e \in es } \cup { e[2] : e \in es }
Flip(es) == { <<e[2], e[1]>> : e \in es }
RECURSIVE Close(_, _)
Close(S, es) == LET T == S \cup { e[2] : e \in { x \in es : x[1] \in S } } IN IF T = S THEN S ELSE Close(T, es)
WholeOk(rs, es, d) == d.edges = es /\ Ends(es) \subseteq d.nodes /\ d.nodes \subseteq Ends(es) \cup AllNames(rs)
\* A plot of a package shows all that can be reached from it, along real edges.
PartOk(es, dir, pkg, d) ==
  LET fs == IF dir = "depends" THEN es ELSE Flip(es)
  IN d.nodes = Close({pkg}, fs) /\ d.edges \subseteq fs /\ Close({pkg}, d.edges) = d.nodes

-----------------------------------------------------------------------------
(* The shell: what a line (split in lower case words) does. *)
Types == {"build", "test"}
Directions == {"depends", "needed-by"}
Out(kind, arg) == [kind |-> kind, arg |-> arg]
Respond(rs, w) ==
  CASE w \in {<<"help">>, <<"h">>} -> Out("help", "")
    [] w \in {<<"stats">>, <<"statistics">>} -> Out("stats", "")
    [] w \in {<<"exit">>, <<"esc">>, <<"quit">>, <<"q">>} -> Out("exit", "")
    [] Len(w) = 3 /\ w[1] = "plot" /\ w[3] = "all" -> IF w[2] \notin Types THEN Out("type", w[2]) ELSE Out("whole", "")
    [] Len(w) = 4 /\ w[1] = "plot" ->
         IF w[2] \notin Types THEN Out("type", w[2])
         ELSE IF w[3] \notin Directions THEN Out("direction", "")
         ELSE IF w[4] \notin AllNames(rs) THEN Out("unknown", w[4])
         ELSE Out("part", "")
    [] OTHER -> Out("invalid", "")
=============================================================================
