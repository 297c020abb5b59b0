----------------------------- MODULE ResampleMC -----------------------------
(***************************************************************************)
(* All samples of a small series, drawn one value at a time.  Averaged over   *)
(* all of them (each is as likely as any other) the statistic "sum" has the   *)
(* total of the series as mean, and n times the variance of the series as     *)
(* variance: the bootstrap estimates both.                                    *)
(***************************************************************************)
EXTENDS Resample
CONSTANTS MaxN
VARIABLES series, draw
vars == <<series, draw>>
Init == series \in UNION {[1..n -> {0, 1, 4}] : n \in 1..MaxN} /\ draw = <<>>
Draw == Len(draw) < Len(series) /\ draw' \in {Append(draw, i) : i \in 1..Len(series)} /\ UNCHANGED series
Next == Draw
Spec == Init /\ [][Next]_vars
Sample == [i \in 1..Len(draw) |-> series[draw[i]]]
Complete == Len(draw) = Len(series)
IsSample == Complete => DrawnFrom(Sample, series)
Ordered == Complete => /\ Stat("max", Sample) <= Stat("max", series)
                       /\ Stat("spread", Sample) <= Stat("spread", series)
                       /\ 2 * Stat("max", Sample) >= Stat("median", Sample)
\* over all samples: a base-n counter names them
All(n) == [k \in 1..(n ^ n) |-> [i \in 1..n |-> series[(((k - 1) \div (n ^ (i - 1))) % n) + 1]]]
Expected == draw = <<>> =>
    LET n == Len(series)
        v == TLCEval([k \in 1..(n ^ n) |-> Stat("sum", All(n)[k])])
    IN  /\ Total(v) = (n ^ n) * Total(series)
        /\ n * Spread2(v) = (n ^ n) * (n ^ n) * Spread2(series)
=============================================================================
