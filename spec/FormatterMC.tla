----------------------------- MODULE FormatterMC -----------------------------
(***************************************************************************)
(* The specification itself is checked, exhaustively over small             *)
(* configurations: the windows of Windows.tla are causal, the declared       *)
(* metadata is the true dependency window, folds never leak across the       *)
(* look-back, kept rows are exactly the defined ones.                        *)
(***************************************************************************)
EXTENDS Formatter

CONSTANTS N, MaxAgg, FoldN, MaxDb, Deep
LagSet == IF Deep THEN {-2, -1, 0, 1, 2} ELSE {-1, 0, 2}
BinSets == IF Deep THEN {<<3, 1, 0>>, <<4, 2>>, <<4, 3, 1>>, <<2, 1, 0>>, <<5, 3>>} ELSE {<<3, 1, 0>>, <<3, 2>>}

VARIABLES conf, phase
vars == <<conf, phase>>

Trs == [names : {<<"a">>}, funs : {<<>>, <<"poly">>, <<"sum", "poly">>}, aggkind : {"none", "int", "time"}, agg : 1..MaxAgg,
        haslags : BOOLEAN, lags : {<<i>> : i \in LagSet} \cup {<<i, j>> : i, j \in LagSet}, rel : BOOLEAN,
        bins : {<<>>} \cup BinSets, nested : BOOLEAN]

Valid(tr) == /\ Len(tr.bins) > 0 => Len(tr.funs) > 0
             /\ Len(tr.funs) = 0 => tr.haslags
             /\ ~tr.haslags => tr.lags = <<0>> /\ ~tr.rel
             /\ Len(tr.bins) = 0 => tr.nested
             /\ (tr.aggkind = "none" \/ Len(tr.bins) > 0) => tr.agg = 1 /\ (Len(tr.bins) > 0 => tr.aggkind = "none")

Init == phase = "config" /\ conf \in {[kind |-> "tr", tr |-> tr, dt |-> dt, n |-> 0, nk |-> 0, mult |-> 0, db |-> 0] : tr \in {t \in Trs : Valid(t)}, dt \in 1..2}
                              \cup {[kind |-> "fold", tr |-> <<>>, dt |-> 1, n |-> n, nk |-> nk, mult |-> m, db |-> db] : n \in 2..FoldN, nk \in 2..5, m \in 1..3, db \in 0..MaxDb}
Next == phase = "config" /\ phase' = "checked" /\ UNCHANGED conf
Spec == Init /\ [][Next]_vars

\* a perturbed sample shows in every sum and weighted sum over a window that contains it
Base == [n |-> N, dt |-> conf.dt, cols |-> [a |-> [i \in 1..N |-> 7 * i * i - 3 * i]]]
Perturb(i) == [Base EXCEPT !.cols["a"][i] = @ + 1]

DependsOn(tr, c, t) == LET b == Column(tr, Base, c)[t] IN {i \in 1..N : b # NA /\ Column(tr, Perturb(i), c)[t] # b}

IsTr == phase = "checked" /\ conf.kind = "tr"
\* metadata states the true window: with a function every sample of it and no other, without one its newest sample
MetadataTrue ==
    IsTr => LET tr == conf.tr  cs == Cols(tr)  ms == Meta(tr, conf.dt) IN
        \A k \in 1..Len(cs) : \A t \in 1..N :
            LET win == (t + ms[k].start)..(t + ms[k].end - 1)
                dep == DependsOn(tr, cs[k], t)
            IN  Column(tr, Base, cs[k])[t] # NA => IF cs[k].fun = "none" THEN dep = {t + ms[k].end - 1} ELSE dep = win
\* with non-negative lags nothing after the row's own instant is used
Causal ==
    IsTr => LET tr == conf.tr  cs == Cols(tr) IN
        (\A i \in 1..Len(LagSeq(tr)) : LagSeq(tr)[i] = NoLag \/ LagSeq(tr)[i] >= 0) =>
            \A k \in 1..Len(cs) : \A t \in 1..N : \A i \in DependsOn(tr, cs[k], t) : i <= t
\* generated columns are pairwise different and as many as the configuration multiplies to
ColumnsDistinct ==
    IsTr => LET tr == conf.tr cs == Cols(tr) IN
        Len(cs) = Len(LagSeq(tr)) * Len(FunSeq(tr)) * NBins(tr) /\
        ((\A i, j \in 1..Len(tr.lags) : i # j => tr.lags[i] # tr.lags[j]) => Cardinality({cs[i] : i \in 1..Len(cs)}) = Len(cs))
\* bins tile the aggregation range without overlap
BinsTile ==
    IsTr /\ HasBins(conf.tr) => LET tr == conf.tr cs == {Cols(tr)[i] : i \in 1..Len(Cols(tr))} IN
        \A l \in {c.lag : c \in cs} : \A o \in 0..12 :
            Cardinality({<<c.b0, c.b1>> : c \in {c \in cs : c.lag = l /\ Newest(tr, conf.dt, c) <= o /\ o <= Oldest(tr, conf.dt, c)}}) =
            IF o >= tr.bins[Len(tr.bins)] + Shift(tr, conf.dt, l) /\ o < tr.bins[1] + Shift(tr, conf.dt, l) THEN 1 ELSE 0

FoldOK == phase = "checked" /\ conf.kind = "fold" /\ ~Refused(conf.n, conf.nk, conf.db)
\* a test sample's look-back (any offset up to the dead band, either side) never contains a training sample
NoLeak ==
    FoldOK => LET m == conf.nk * conf.mult IN
        \A f \in 1..m : \A s \in 1..conf.n : InTest(conf.n, conf.nk, m, f, s) =>
            \A o \in -conf.db..conf.db : s + o \in 1..conf.n => ~InTrain(conf.n, conf.nk, m, f, s + o, conf.db)
\* nor the other way round
NoLeakBack ==
    FoldOK => LET m == conf.nk * conf.mult IN
        \A f \in 1..m : \A s \in 1..conf.n : InTrain(conf.n, conf.nk, m, f, s, conf.db) =>
            \A o \in -conf.db..conf.db : s + o \in 1..conf.n => ~InTest(conf.n, conf.nk, m, f, s + o)
CoverAll == FoldOK => LET m == conf.nk * conf.mult IN \A s \in 1..conf.n : \E f \in 1..m : InTest(conf.n, conf.nk, m, f, s)
Contiguous == FoldOK => LET m == conf.nk * conf.mult IN \A f \in 1..m : \A s, u, w \in 1..conf.n :
                  (s < u /\ u < w /\ InTest(conf.n, conf.nk, m, f, s) /\ InTest(conf.n, conf.nk, m, f, w)) => InTest(conf.n, conf.nk, m, f, u)
=============================================================================
