-------------------------------- MODULE Num --------------------------------
(* Integer and rational arithmetic shared by the specifications of forecasts. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Near(a, b, tol) == Abs(a - b) <= tol
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Ascending(s) == SortSeq(s, LAMBDA a, b : a < b)
Set(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
SumOver(f) == LET RECURSIVE go(_) go(D) == IF D = {} THEN 0 ELSE LET d == CHOOSE d \in D : TRUE IN f[d] + go(D \ {d}) IN go(DOMAIN f)
\* sum of f[1..n], tail recursion over indices (for long functions)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Pairwise(f(_, _), s, t) == [i \in 1..Len(s) |-> f(s[i], t[i])]
SelectIdx(n, P(_)) == SelectSeq([i \in 1..n |-> i], P)
Pick(s, rows) == [i \in 1..Len(rows) |-> s[rows[i]]]

\* b times the empirical quantile of level a/b of the ascending sequence s (linear interpolation between order statistics)
QuantileTimes(s, a, b) ==
    LET pos == (Len(s) - 1) * a
        f == pos \div b
        r == pos % b
    IN  IF f + 1 >= Len(s) THEN b * s[Len(s)]
        ELSE b * s[f + 1] + (s[f + 2] - s[f + 1]) * r

\* index of the segment of the ascending knots ks used at r: the inner segment that contains r, the first or last one outside
Segment(ks, r) ==
    LET n == Len(ks)
        below == {j \in 1..(n - 1) : ks[j] <= r}
    IN  IF below = {} THEN 1 ELSE CHOOSE j \in below : \A k \in below : k <= j
\* (ks[j+1]-ks[j]) times the linear inter/extrapolation at r of the points (ks, vs), on segment j
LinearTimes(ks, vs, r, j) == vs[j] * (ks[j + 1] - ks[j]) + (vs[j + 1] - vs[j]) * (r - ks[j])
=============================================================================
