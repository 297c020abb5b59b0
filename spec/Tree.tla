-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Scenario trees.  N scenarios over T steps; rep[t][s] is the scenario     *)
(* whose value scenario s carries at step t after reduction, alive[t] the   *)
(* scenarios that remain at step t and prob[t][s] N times the probability   *)
(* of scenario s at step t.                                                 *)
(***************************************************************************)
EXTENDS Num

\* values are those of remaining scenarios, which keep their own
Representatives(N, T, rep, alive) == \A t \in 1..T : \A s \in 1..N : rep[t][s] \in alive[t] /\ (s \in alive[t] => rep[t][s] = s)
\* once merged, identical at all earlier steps
Coherent(S, T, rep) == \A t \in 2..T : \A s, r \in S : rep[t][s] = rep[t][r] => rep[t - 1][s] = rep[t - 1][r]
\* the probability of a remaining scenario is the share of the scenarios it stands for
Conserved(N, T, rep, alive, prob) == \A t \in 1..T : \A s \in 1..N : prob[t][s] = Cardinality({r \in 1..N : rep[t][r] = s})
Shrinking(T, alive) == \A t \in 2..T : alive[t - 1] \subseteq alive[t]
Sizes(N, T, alive, nodes) == \A t \in 1..T : Cardinality(alive[t]) = Min2(N, nodes[t])

\* a tree given as a set of nodes [id, t (from 1), p, rep] and a set of edges <<parent, child>>
NodesAt(nd, t) == {n \in nd : n.t = t}
WellFormed(nd, ed, T) ==
    /\ Cardinality({n.id : n \in nd}) = Cardinality(nd)
    /\ Cardinality(NodesAt(nd, 1)) = 1
    /\ \A n \in nd : n.t \in 1..T
    /\ \A n \in nd : LET par == {e \in ed : e[2] = n.id} IN
         IF n.t = 1 THEN par = {} ELSE Cardinality(par) = 1 /\ \A e \in par : \E m \in NodesAt(nd, n.t - 1) : m.id = e[1]
    /\ \A n \in nd : n.t < T => \E e \in ed : e[1] = n.id
ChildrenSum(nd, ed, T, one, tol) ==
    /\ \A n \in NodesAt(nd, 1) : Near(n.p, one, tol)
    /\ \A n \in nd : n.t < T => LET C == {m \in nd : <<n.id, m.id>> \in ed} IN Near(n.p, SumOver([m \in C |-> m.p]), tol)
=============================================================================
