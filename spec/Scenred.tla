------------------------------ MODULE Scenred ------------------------------
(***************************************************************************)
(* Backward scenario reduction: from the last step to the first, scenarios  *)
(* are merged into others until the step has its number of nodes; the       *)
(* metric, which only chooses the pair to merge, is abstracted away.        *)
(***************************************************************************)
EXTENDS Tree
CONSTANTS N, T, NodeCounts
VARIABLES nodes, t, rep, alive, prob, members
vars == <<nodes, t, rep, alive, prob, members>>

NonDecreasing == {f \in [1..T -> NodeCounts] : f[1] = 1 /\ \A i \in 2..T : f[i - 1] <= f[i]}
Init == /\ nodes \in NonDecreasing
        /\ t = T /\ rep = [u \in 1..T |-> [s \in 1..N |-> s]]
        /\ alive = [u \in 1..T |-> 1..N] /\ prob = [u \in 1..T |-> [s \in 1..N |-> 1]]
        /\ members = [s \in 1..N |-> {s}]
\* scenario r is merged into a: all the scenarios r stood for follow, at this and all earlier steps
Merge(r, a) ==
    /\ t > 0 /\ r # a /\ {r, a} \subseteq alive[t] /\ Cardinality(alive[t]) > nodes[t]
    /\ rep' = [u \in 1..T |-> [s \in 1..N |-> IF u <= t /\ s \in members[r] THEN a ELSE rep[u][s]]]
    /\ alive' = [u \in 1..T |-> IF u <= t THEN alive[u] \ {r} ELSE alive[u]]
    /\ prob' = [u \in 1..T |-> IF u <= t THEN [prob[u] EXCEPT ![a] = @ + prob[u][r], ![r] = 0] ELSE prob[u]]
    /\ members' = [members EXCEPT ![a] = @ \cup members[r]]
    /\ UNCHANGED <<nodes, t>>
Down == t > 0 /\ Cardinality(alive[t]) <= nodes[t] /\ t' = t - 1 /\ UNCHANGED <<nodes, rep, alive, prob, members>>
Next == Down \/ \E r, a \in 1..N : Merge(r, a)
Spec == Init /\ [][Next]_vars

Always == Representatives(N, T, rep, alive) /\ Coherent(1..N, T, rep) /\ Conserved(N, T, rep, alive, prob) /\ Shrinking(T, alive)
Final == t = 0 => Sizes(N, T, alive, nodes)
\* the tree read off the columns that remain at the last step
TreeNodes == {[id |-> <<u, s>>, t |-> u, p |-> prob[u][s], rep |-> s] : u \in 1..T, s \in 1..N}
LiveNodes == {n \in TreeNodes : n.rep \in alive[n.t]}
TreeEdges == {<<<<u - 1, rep[u - 1][s]>>, <<u, s>>>> : u \in 2..T, s \in 1..N}
LiveEdges == {e \in TreeEdges : e[2][2] \in alive[e[2][1]]}
FinalTree == t = 0 => WellFormed(LiveNodes, LiveEdges, T) /\ ChildrenSum(LiveNodes, LiveEdges, T, N, 0)
=============================================================================
