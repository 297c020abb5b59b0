------------------------------ MODULE Resample ------------------------------
(* Bootstrap: statistics of samples drawn with replacement from a series, and their summary. *)
EXTENDS Num
\* statistics, times Unit(kind)
Unit(kind) == IF kind = "median" THEN 2 ELSE 1
Stat(kind, s) ==
    LET a == Ascending(s) IN
    CASE kind = "sum" -> SumTo(s, Len(s))
      [] kind = "spread" -> a[Len(a)] - a[1]
      [] kind = "max" -> a[Len(a)]
      [] kind = "median" -> a[(Len(a) + 1) \div 2] + a[(Len(a) + 2) \div 2]
      [] OTHER -> Len(s)
\* N times the mean, N^2 times the variance of the statistics (in units, and units squared)
Total(v) == SumTo(v, Len(v))
Spread2(v) == Len(v) * SumTo([i \in 1..Len(v) |-> v[i] * v[i]], Len(v)) - Total(v) * Total(v)
DrawnFrom(s, series) == Len(s) = Len(series) /\ Set(s) \subseteq Set(series)
=============================================================================
