------------------------------- MODULE Windows -------------------------------
(***************************************************************************)
(* The meaning of a transform configuration: which columns it generates,   *)
(* in which order, over which samples each of them ranges, what its value  *)
(* is, and what the metadata must say about it.                            *)
(*                                                                         *)
(* A transformer is a record                                               *)
(*   names   : sequence of signal names                                    *)
(*   funs    : sequence of function names, <<>> for "no function"          *)
(*   aggkind : "none" (one step), "int" (agg steps), "time" (agg ticks)  *)
(*   agg     : aggregation window in the unit above                        *)
(*   haslags, lags, rel : signed lags; relative lags count windows         *)
(*   bins    : <<>> or a strictly descending sequence of step numbers      *)
(*   nested  : column order / evaluation scheme of binned transforms       *)
(* A frame is a record  n (rows), dt (ticks), cols (name -> sequence of  *)
(* integers, NA for a missing sample).                                     *)
(* Offsets are counted backwards: offset o at row t is sample t-o.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NA == -1000000000
NoLag == -9999
NoBin == -9999

HasBins(tr) == Len(tr.bins) > 0
NBins(tr) == IF HasBins(tr) THEN Len(tr.bins) - 1 ELSE 1
LagSeq(tr) == IF tr.haslags THEN tr.lags ELSE <<NoLag>>
FunSeq(tr) == IF Len(tr.funs) = 0 THEN <<"none">> ELSE tr.funs

\* number of sampling steps of the aggregation window for a sampling time of dt ticks
Steps(tr, dt) == IF HasBins(tr) THEN tr.bins[1] - tr.bins[Len(tr.bins)]
                 ELSE CASE tr.aggkind = "none" -> 1
                        [] tr.aggkind = "int" -> tr.agg
                        [] OTHER -> (tr.agg + dt - 1) \div dt

Shift(tr, dt, lag) == IF lag = NoLag THEN 0 ELSE IF tr.rel THEN lag * Steps(tr, dt) ELSE lag

\* the k-th (0-based) generated column of one signal
ColAt(tr, name, k) ==
    LET nf == Len(FunSeq(tr))
        nb == NBins(tr)
        l  == LagSeq(tr)[(k \div (nf * nb)) + 1]
        r  == k % (nf * nb)
        bi == IF tr.nested THEN r \div nf ELSE r % nb
        fi == IF tr.nested THEN r % nf ELSE r \div nb
    IN  IF HasBins(tr)
        THEN [name |-> name, fun |-> FunSeq(tr)[fi + 1], lag |-> l, b0 |-> tr.bins[bi + 1], b1 |-> tr.bins[bi + 2]]
        ELSE [name |-> name, fun |-> FunSeq(tr)[(k % nf) + 1], lag |-> l, b0 |-> NoBin, b1 |-> NoBin]

ColsPerName(tr) == Len(LagSeq(tr)) * Len(FunSeq(tr)) * NBins(tr)

\* all generated columns, in order
Cols(tr) == [i \in 1..(Len(tr.names) * ColsPerName(tr)) |->
                ColAt(tr, tr.names[((i - 1) \div ColsPerName(tr)) + 1], (i - 1) % ColsPerName(tr))]

\* newest and oldest backward offset of the samples a column ranges over
Newest(tr, dt, c) == IF c.b0 = NoBin THEN Shift(tr, dt, c.lag) ELSE c.b1 + Shift(tr, dt, c.lag)
Oldest(tr, dt, c) == IF c.b0 = NoBin
                     THEN Shift(tr, dt, c.lag) + (IF c.fun = "none" THEN 0 ELSE Steps(tr, dt) - 1)
                     ELSE c.b0 - 1 + Shift(tr, dt, c.lag)
\* the window the configuration declares (an un-aggregated column is the last sample of its window)
DeclOldest(tr, dt, c) == IF c.b0 = NoBin THEN Shift(tr, dt, c.lag) + Steps(tr, dt) - 1 ELSE Oldest(tr, dt, c)

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE SumTo(s, k - 1) + s[k]
RECURSIVE WSumTo(_, _)
WSumTo(s, k) == IF k = 0 THEN 0 ELSE WSumTo(s, k - 1) + k * s[k]
RECURSIVE SqTo(_, _)
SqTo(s, k) == IF k = 0 THEN 0 ELSE SqTo(s, k - 1) + s[k] * s[k]
RECURSIVE MaxTo(_, _)
MaxTo(s, k) == IF k = 1 THEN s[1] ELSE LET m == MaxTo(s, k - 1) IN IF s[k] > m THEN s[k] ELSE m
RECURSIVE MinTo(_, _)
MinTo(s, k) == IF k = 1 THEN s[1] ELSE LET m == MinTo(s, k - 1) IN IF s[k] < m THEN s[k] ELSE m

\* value of a function on a window (oldest sample first), on the integer scale the conformance harness projects to:
\* mean -> sum; median -> twice the median; var and std -> w * sum of squares - (sum)^2  (= w (w-1) variance)
Apply(fun, w) ==
    LET k == Len(w) IN
    CASE fun = "none" -> w[k]
      [] fun = "sum"  -> SumTo(w, k)
      [] fun = "mean" -> SumTo(w, k)
      [] fun = "max"  -> MaxTo(w, k)
      [] fun = "min"  -> MinTo(w, k)
      [] fun = "poly" -> WSumTo(w, k)
      [] fun \in {"var", "std"} -> IF k = 1 THEN NA ELSE k * SqTo(w, k) - SumTo(w, k) * SumTo(w, k)
      [] fun = "median" -> LET s == SortSeq(w, LAMBDA a, b: a < b)
                           IN  IF k % 2 = 1 THEN 2 * s[(k + 1) \div 2] ELSE s[k \div 2] + s[k \div 2 + 1]
      [] OTHER -> Assert(FALSE, <<"unknown function", fun>>)

\* value of the samples t-old..t-new of a signal of n samples, NA when not entirely inside or with a hole
WindowValue(fun, data, n, t, old, new) ==
    IF t - old < 1 \/ t - new > n THEN NA
    ELSE LET w == SubSeq(data, t - old, t - new)
         IN  IF \E i \in 1..Len(w) : w[i] = NA THEN NA ELSE Apply(fun, w)

\* offsets that must be inside the data for the value to be defined: the window itself; for bins that are evaluated in
\* one pass (not nested) the range of all bins
NeedNewest(tr, dt, c) == IF HasBins(tr) /\ ~tr.nested THEN tr.bins[Len(tr.bins)] + Shift(tr, dt, c.lag) ELSE Newest(tr, dt, c)
NeedOldest(tr, dt, c) == IF HasBins(tr) /\ ~tr.nested THEN tr.bins[1] - 1 + Shift(tr, dt, c.lag) ELSE Oldest(tr, dt, c)

\* a frame may lack rows: frame.pos (if any) states the sampling step of each row.  Lags count rows; an aggregation
\* window is a span of time, defined only when every sampling step in it has its row.  (Bins evaluated in one pass
\* count rows.)
Gapless(tr, frame, t, old, new) ==
    IF "pos" \notin DOMAIN frame \/ (HasBins(tr) /\ ~tr.nested) \/ t - old < 1 \/ t - new > frame.n THEN TRUE
    ELSE frame.pos[t - new] - frame.pos[t - old] = old - new

Column(tr, frame, c) ==
    LET old == Oldest(tr, frame.dt, c)
        new == Newest(tr, frame.dt, c)
        data == frame.cols[c.name]
        nold == NeedOldest(tr, frame.dt, c)
        nnew == NeedNewest(tr, frame.dt, c)
        shift == Shift(tr, frame.dt, c.lag)
    IN  \* a lag moves the un-lagged column: the instant it is moved from must be a row of the frame
        TLCEval([t \in 1..frame.n |-> IF t - shift < 1 \/ t - shift > frame.n THEN NA
                                       ELSE IF <<nold, nnew>> # <<old, new>> /\ WindowValue("sum", data, frame.n, t, nold, nnew) = NA THEN NA
                                       ELSE IF ~Gapless(tr, frame, t, old, new) THEN NA
                                       ELSE WindowValue(c.fun, data, frame.n, t, old, new)])

\* what the metadata of a column must say: [start, end) in sampling steps relative to the prediction instant
MetaOf(tr, dt, c) ==
    [name |-> c.name, fun |-> c.fun, lag |-> IF HasBins(tr) /\ c.lag = NoLag THEN 0 ELSE c.lag, clag |-> c.lag,
     start |-> -DeclOldest(tr, dt, c), end |-> 1 - Newest(tr, dt, c), b0 |-> c.b0, b1 |-> c.b1]

Meta(tr, dt) == LET cs == Cols(tr) IN [i \in 1..Len(cs) |-> MetaOf(tr, dt, cs[i])]
AllMeta(trs, dt) == FlattenSeq([i \in 1..Len(trs) |-> Meta(trs[i], dt)])
AllCols(trs) == FlattenSeq([i \in 1..Len(trs) |-> Cols(trs[i])])

Abs(x) == IF x < 0 THEN -x ELSE x
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
=============================================================================
