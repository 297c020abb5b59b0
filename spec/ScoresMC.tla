------------------------------ MODULE ScoresMC -------------------------------
(* The definitions of Scores over all small matrices: 2 x 2 forecasts and targets, masks and groupings of rows and columns. *)
EXTENDS Scores, TLC
CONSTANTS Lo, Hi
VARIABLES x, t, mask, grp, axis
vars == <<x, t, mask, grp, axis>>
Mat(V) == [1..2 -> [1..2 -> V]]
Init == /\ x \in Mat(Lo..Hi) /\ t \in Mat(Lo..Hi) /\ mask \in {m \in Mat({0, 1}) : m[1][1] = 1}
        /\ grp \in {<<1, 1>>, <<1, 2>>, <<2, 1>>} /\ axis \in {"rows", "cols"}
Transpose(m) == [r \in 1..2 |-> [c \in 1..2 |-> m[c][r]]]
\* the only step: look at the same data with rows and columns exchanged
Flip == x' = Transpose(x) /\ t' = Transpose(t) /\ mask' = Transpose(mask) /\ axis' = (IF axis = "rows" THEN "cols" ELSE "rows") /\ UNCHANGED grp
Next == Flip
Spec == Init /\ [][Next]_vars
All == {e \in (1..2) \X (1..2) : mask[e[1]][e[2]] = 1}
Sq(D) == SumD(D, LAMBDA e : SquareTerm(x, t, e))
\* the entries of the groups partition the entries that count
Partition == /\ UNION {Entries(axis, grp, mask, g, k) : g \in Members(grp), k \in Others(axis, mask)} = All
             /\ \A g, h \in Members(grp), k, j \in Others(axis, mask) : <<g, k>> # <<h, j>> => Entries(axis, grp, mask, g, k) \cap Entries(axis, grp, mask, h, j) = {}
Recombine == Sq(All) = SumD({<<g, k>> : g \in Members(grp), k \in Others(axis, mask)}, LAMBDA p : Sq(Entries(axis, grp, mask, p[1], p[2])))
Zero == (Sq(All) = 0) <=> \A e \in All : x[e[1]][e[2]] = t[e[1]][e[2]]
\* exchanging rows and columns exchanges the axes and nothing else
Symmetric == \A g \in Members(grp), k \in Others(axis, mask) :
    Sq(Entries(axis, grp, mask, g, k)) =
    LET X == Transpose(x) Y == Transpose(t) IN SumD(Entries(IF axis = "rows" THEN "cols" ELSE "rows", grp, Transpose(mask), g, k), LAMBDA e : SquareTerm(X, Y, e))
\* masked entries do not matter
Q(m) == [r \in 1..2 |-> [c \in 1..2 |-> <<m[r][c]>>]]
Pinball == \A e \in All, lv \in {10, 50, 90} : PinballTerm(Q(x), t, 1, lv, e) >= 0 /\ (PinballTerm(Q(x), t, 1, lv, e) = 0 <=> x[e[1]][e[2]] = t[e[1]][e[2]])
\* the median level scores half the absolute error
Half == \A e \in All : 2 * PinballTerm(Q(x), t, 1, 50, e) = 100 * AbsErr(x, t, e)
\* a quantile score is least where the level equals the share of targets below
Bins == LET v == <<x[1][1], x[1][2], x[2][1], x[2][2], t[1][1], t[2][2]>> g == QuantileGroups(v, 2)
        IN  /\ \A i, j \in 1..6 : v[i] = v[j] => g[i] = g[j]
            /\ \A i, j \in 1..6 : v[i] < v[j] => g[i] <= g[j]
            /\ Cardinality(Set(g)) <= 2
            /\ (Distinct(v) = 6 => Cardinality({i \in 1..6 : g[i] = 1}) = 3)
=============================================================================
