---------------------------- MODULE SmoothingMC ----------------------------
(* Consequences of the recursion, for all small series and gains. *)
EXTENDS Smoothing
CONSTANTS Vals, MaxLen, Steps
VARIABLES p, s, ys, s0, f0
vars == <<p, s, ys, s0, f0>>
\* gains are multiples of 1/1, so that the arithmetic is exact
Pars == {[a |-> a, b |-> b, g |-> g, m |-> m, D |-> 1] : a \in {0, 1}, b \in {0, 1}, g \in {0, 1}, m \in {0, 2, 3}}
Init == /\ p \in Pars /\ ys = <<>>
        /\ s \in {[l |-> l, b |-> b, s |-> [j \in 1..p.m |-> j], k |-> 0] : l \in Vals, b \in {0, 1}}
        /\ s0 = s /\ f0 = [k \in 1..Steps |-> Ahead(p, s, k)]
Room == Len(ys) < MaxLen
Obs == \E v \in Vals : Room /\ ys' = Append(ys, v) /\ s' = Observe(p, s, v) /\ UNCHANGED <<p, s0, f0>>
Miss == Room /\ ys' = Append(ys, Missing) /\ s' = Observe(p, s, Missing) /\ UNCHANGED <<p, s0, f0>>
Next == Obs \/ Miss
Spec == Init /\ [][Next]_vars
\* feeding rows one by one is running over all of them
Batch == ys # <<>> => States(p, s0, ys)[Len(ys)] = s
\* missing rows leave the forecasts of later rows as they were
Silent == (\A i \in 1..Len(ys) : ys[i] = Missing) => \A k \in 1..(Steps - Len(ys)) : Ahead(p, s, k) = f0[Len(ys) + k]
\* a series equal to its forecasts leaves them as they were
Exact == (Len(ys) <= Steps /\ \A i \in 1..Len(ys) : ys[i] = f0[i]) => \A k \in 1..(Steps - Len(ys)) : Ahead(p, s, k) = f0[Len(ys) + k]
\* a level gain of one without season and trend is persistence
Persists == (p.a = 1 /\ p.m = 0 /\ p.b = 0 /\ s0.b = 0 /\ ys # <<>> /\ ys[Len(ys)] # Missing) => \A k \in 1..Steps : Ahead(p, s, k) = ys[Len(ys)]
\* a forecast of row i and step k knows rows up to i only
Causal == \A i \in 1..Len(ys) : Forecasts(p, s0, SubSeq(ys, 1, i), Steps)[i] = Forecasts(p, s0, ys, Steps)[i]
=============================================================================
