------------------------------ MODULE GraphMC ------------------------------
(* Whatever the order in which recipes are read, the graph is right. All small collections. *)
EXTENDS Graph

CONSTANTS PkgNames, Recipes
Needs == SUBSET PkgNames
VARIABLES todo, all, g
vars == <<todo, all, g>>

\* Up to two packages in a recipe
OnePkg(id) == { [id |-> id, exc |-> "", pkgs |-> <<[n |-> a, build |-> b, test |-> t]>>] : a \in PkgNames, b \in Needs, t \in {{}, {"x"}} }
TwoPkg(id) == { [id |-> id, exc |-> "", pkgs |-> <<[n |-> p[1], build |-> {"x"}, test |-> {}], [n |-> p[2], build |-> {}, test |-> {"x"}]>>] :
                p \in { q \in PkgNames \X PkgNames : q[1] # q[2] } }
Bad(id) == { [id |-> id, exc |-> "KeyError", pkgs |-> <<>>] }
Some(id) == OnePkg(id) \cup TwoPkg(id) \cup Bad(id)
RECURSIVE Collections(_)
Collections(n) == IF n = 0 THEN {{}} ELSE { c \cup {r} : c \in Collections(n - 1), r \in Some(n) }
Init == all \in Collections(Recipes) /\ todo = all /\ g = NoGraph
Next == \E r \in todo : g' = AddRecipe(g, r) /\ todo' = todo \ {r} /\ UNCHANGED all
Spec == Init /\ [][Next]_vars

Right == GraphOk(all \ todo, g)
\* Packages never change their recipe and edges are never lost.
Stable == [][/\ \A n \in DOMAIN g.owner : g'.owner[n] = g.owner[n]
             /\ g.build \subseteq g'.build /\ g.test \subseteq g'.test /\ g.dups \subseteq g'.dups]_vars
=============================================================================
