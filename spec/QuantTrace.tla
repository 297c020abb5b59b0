----------------------------- MODULE QuantTrace -----------------------------
(***************************************************************************)
(* Error-based quantile forecasts.  A fit event gives, for all rows of the  *)
(* data in order, the hour of day, the targets and the point forecasts      *)
(* (times the scale); the specification chooses the validation rows, groups *)
(* their errors by hour, takes the empirical quantiles and states what each *)
(* quantile forecast must be.  Levels are a/T.den, T.den = 100 or 1000.     *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, fit
vars == <<tid, l, st, fit>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ fit = 0

NVal(e) == IF e.num = -1 THEN e.n ELSE (e.n * e.num) \div e.den
ValRows(e) == [i \in 1..NVal(e) |-> e.n - NVal(e) + i]
Hours(e) == {e.hours[r] : r \in Set(ValRows(e))}
\* the rows whose errors count for an hour
Rows(e, h) == IF e.cond /\ Cardinality(Hours(e)) = 24 THEN SelectSeq(ValRows(e), LAMBDA r : e.hours[r] = h) ELSE ValRows(e)
Errors(e, h, k) == LET R == Rows(e, h) IN Ascending([i \in 1..Len(R) |-> e.y[R[i]][k] - e.pred[R[i]][k]])

Levels == T.ev[fit].levels
NQ == Len(Levels)
K == Len(T.ev[fit].ycols)
Labels == [i \in 1..(K * NQ) |-> <<T.ev[fit].ycols[((i - 1) \div NQ) + 1], (10000 \div T.den) * Levels[((i - 1) % NQ) + 1]>>]

QuantClause ==
    LET o == E.obs
        f == T.ev[fit]
        hs == {E.hours[i] : i \in 1..Len(E.hours)}
        tab == TLCEval([h \in hs |-> [k \in 1..K |-> LET s == TLCEval(Errors(f, h, k)) IN [j \in 1..NQ |-> QuantileTimes(s, Levels[j], T.den)]]])
        n == Len(E.hours)
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.labels # Labels THEN "labels are not targets by levels"
        ELSE IF Len(o.df) # n \/ Len(o.arr) # n \/ ~o.index THEN "rows or index differ"
        ELSE IF ~o.shape THEN "array form has the wrong shape"
        ELSE IF \E i \in 1..n, k \in 1..K, j \in 1..NQ : ~Near(T.den * (o.df[i][(k - 1) * NQ + j] - o.pred[i][k]), tab[E.hours[i]][k][j], T.tol)
             /\ PrintT(<<"INFO", "row", i, "target", k, "level", Levels[j], "got", o.df[i][(k - 1) * NQ + j] - o.pred[i][k], "times", T.den, "should be", tab[E.hours[i]][k][j]>>)
             THEN "quantile forecast is not the point forecast plus its error quantile"
        ELSE IF \E i \in 1..n, k \in 1..K, j \in 1..NQ : o.arr[i][(k - 1) * NQ + j] # o.df[i][(k - 1) * NQ + j] THEN "array and frame forms disagree"
        ELSE IF o.back # o.df \/ o.conv # o.arr THEN "conversion between frame and array loses values"
        ELSE IF \E i \in 1..n, k \in 1..K, j \in 1..(NQ - 1) : o.arr[i][(k - 1) * NQ + j] > o.arr[i][(k - 1) * NQ + j + 1] + 1 THEN "quantiles decrease with the level"
        ELSE IF \E i \in 1..Len(o.pmf), k \in 1..K, b \in 1..(Len(o.edges) - 1) :
                o.pmf[i][(k - 1) * (Len(o.edges) - 1) + b] # Cardinality({j \in 1..NQ : o.edges[b] < o.arr[i][(k - 1) * NQ + j] /\ o.arr[i][(k - 1) * NQ + j] < o.edges[b + 1]})
             THEN "the distribution over the bins is not the share of the quantiles within each"
        ELSE "ok"

\* changing features and targets of validation rows only, the point model stays the same
IsolateClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.changed # ValRows(T.ev[fit]) THEN "harness"
    ELSE IF \E i \in 1..Len(o.before) : \E k \in 1..K : ~Near(o.before[i][k], o.after[i][k], 2) THEN "validation rows were used to train the point model"
    ELSE "ok"
\* a forest whose trees are single leaves holding all training rows: the quantiles of each step's training targets
NativeClause ==
    LET o == E.obs
        Kn == Len(E.ycols)
        nq == Len(E.levels)
        \* a single leaf per tree holds every sample once: the forest pools E.trees copies
        s == TLCEval([k \in 1..Kn |-> Ascending([i \in 1..(E.trees * Len(E.y)) |-> E.y[((i - 1) % Len(E.y)) + 1][k]])])
        lab == [i \in 1..(Kn * nq) |-> <<E.ycols[((i - 1) \div nq) + 1], 100 * E.levels[((i - 1) % nq) + 1]>>]
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.labels # lab THEN "labels are not targets by levels"
        ELSE IF ~o.shape THEN "array form has the wrong shape"
        ELSE IF \E i \in 1..Len(o.df), k \in 1..Kn, j \in 1..nq : ~Near(100 * o.df[i][(k - 1) * nq + j], QuantileTimes(s[k], E.levels[j], 100), T.tol) THEN "quantile belongs to another step or level"
        ELSE IF o.arr # o.df THEN "array and frame forms disagree"
        ELSE IF \E i \in 1..Len(o.point), k \in 1..Kn : ~Near(Len(E.y) * o.point[i][k], SumTo([r \in 1..Len(E.y) |-> E.y[r][k]], Len(E.y)), 2 * Len(E.y)) THEN "point forecast belongs to another step"
        ELSE "ok"
Clause == CASE E.op = "quant" -> QuantClause
            [] E.op = "native" -> NativeClause
            [] E.op = "isolate" -> IsolateClause
            [] OTHER -> IF E.obs.ok THEN "ok" ELSE "raised: " \o E.obs.err
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run" /\ fit' = IF E.op = "fit" THEN l ELSE fit
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, fit>>
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, fit>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
