------------------------------- MODULE Scores --------------------------------
(***************************************************************************)
(* Definitions of the scores over a matrix of integer forecasts x and       *)
(* targets t (rows = times, columns = steps), a mask of the entries that     *)
(* count, and a grouping of either the rows or the columns.  A score is a     *)
(* table [group, other] of averages of a term over the entries of the group;  *)
(* averages are kept as pairs (sum of terms, number of entries).              *)
(***************************************************************************)
EXTENDS Num
SumD(D, f(_)) == LET RECURSIVE S(_)
                     S(d) == IF d = {} THEN 0 ELSE LET e == CHOOSE e \in d : TRUE IN f(e) + S(d \ {e})
                 IN S(D)
\* entries of group g at other index k
Entries(axis, grp, mask, g, k) ==
    IF axis = "rows" THEN {<<r, k>> : r \in {r \in 1..Len(mask) : grp[r] = g /\ mask[r][k] = 1}}
    ELSE {<<k, c>> : c \in {c \in 1..Len(mask[1]) : grp[c] = g /\ mask[k][c] = 1}}
Members(grp) == {grp[i] : i \in 1..Len(grp)} \ {0}
Others(axis, mask) == IF axis = "rows" THEN 1..Len(mask[1]) ELSE 1..Len(mask)
\* ---- terms, as integers in the given scale
SquareTerm(x, t, e) == (x[e[1]][e[2]] - t[e[1]][e[2]]) * (x[e[1]][e[2]] - t[e[1]][e[2]])
AbsErr(x, t, e) == Abs(x[e[1]][e[2]] - t[e[1]][e[2]])
\* |error| / (|target| + 0.00001)
PercTerm(x, t, e, scale) == LET a == Abs(t[e[1]][e[2]]) IN IF a = 0 THEN AbsErr(x, t, e) * 100000 * scale ELSE (AbsErr(x, t, e) * scale) \div a
\* twice the median of the row averages of |target|, times the number of columns of a full row: all rows are full here,
\* or the row average is kept as (sum, count) and compared as a rational over the common denominator 60
RowAvg60(t, mask, r) == LET D == {c \in 1..Len(t[1]) : mask[r][c] = 1} IN (60 * SumD(D, LAMBDA c : Abs(t[r][c]))) \div Cardinality(D)
FullRows(mask) == {r \in 1..Len(mask) : \E c \in 1..Len(mask[1]) : mask[r][c] = 1}
SortRows(t, mask) == LET F == FullRows(mask)
                         RECURSIVE G(_)
                         G(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE m \in s : \A o \in s : RowAvg60(t, mask, m) <= RowAvg60(t, mask, o) IN <<RowAvg60(t, mask, m)>> \o G(s \ {m})
                     IN G(F)
Median120(t, mask) == LET s == SortRows(t, mask)
                          n == Len(s)
                      IN  IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]
\* |error| / (row average + 0.01 median of the row averages): numerator and denominator times 12000
NormTerm(x, t, mask, med, e, scale) == (AbsErr(x, t, e) * 12000 * scale) \div (200 * RowAvg60(t, mask, e[1]) + med)
\* quantile score times 100, level in percent
PinballTerm(q, t, a, level, e) == LET d == q[e[1]][e[2]][a] - t[e[1]][e[2]] IN (IF d > 0 THEN 100 - level ELSE -level) * d
CoverTerm(q, t, a, e) == IF q[e[1]][e[2]][a] > t[e[1]][e[2]] THEN 1 ELSE 0
\* ---- quantile bins of a numeric grouping column v: bins by the nq-quantiles (linear interpolation), equal edges merged
Edge(v, nq, i) == LET s == Ascending(v)
                      p == (Len(v) - 1) * i
                      lo == p \div nq
                      f == p - lo * nq
                  IN  s[lo + 1] * (nq - f) + (IF f = 0 THEN 0 ELSE s[lo + 2] * f)
BinOf(v, nq, x) == LET es == {Edge(v, nq, i) : i \in 1..nq}
                   IN  1 + Cardinality({e \in es : e < nq * x /\ e > Edge(v, nq, 0)})
Distinct(v) == Cardinality({v[i] : i \in 1..Len(v)})
\* ranks of the bins that are in use
QuantileGroups(v, nq) == LET b == TLCEval([i \in 1..Len(v) |-> BinOf(v, nq, v[i])])
                         IN  [i \in 1..Len(v) |-> Cardinality({b[j] : j \in {j \in 1..Len(v) : b[j] < b[i]}}) + 1]
=============================================================================
