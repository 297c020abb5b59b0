----------------------------- MODULE BenchTrace ------------------------------
(***************************************************************************)
(* Validates recorded uses of a benchmark forecaster: a state machine whose   *)
(* state is what the last training left (mem, errs, hours; the training rows   *)
(* of the discrete one).  Observed forecasts are scaled by 1000, frequencies   *)
(* by 10000, quantiles by 1000.                                               *)
(***************************************************************************)
EXTENDS Bench, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, m
vars == <<tid, l, st, m>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ m = [trained |-> FALSE]
NA == -1000000000
Trained(e) ==
    IF T.kind = "discrete" THEN [trained |-> TRUE, minutes |-> e.minutes, ys |-> e.ys, dt |-> e.dt, support |-> e.support]
    ELSE LET tr == SubSeq(e.xs, 1, Len(e.xs) - e.nval)
             va == SubSeq(e.xs, Len(e.xs) - e.nval + 1, Len(e.xs))
             w == IF e.nval = 0 THEN e.xs ELSE va
             hs == IF e.nval = 0 THEN e.hours ELSE SubSeq(e.hours, Len(e.xs) - e.nval + 1, Len(e.xs))
             mem == IF T.kind = "seasonal" THEN Last(tr, T.s) ELSE <<>>
         IN  [trained |-> TRUE, mem |-> mem, errs |-> Errors(Forecast(T.kind, mem, w, T.s, T.n), w, T.n), hours |-> hs]
PredictClause ==
    LET o == E.obs f == Forecast(T.kind, m.mem, E.xs, T.s, T.n) IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "the rows asked were modified"
    ELSE IF ~o.index THEN "forecast does not carry the index of the rows asked"
    ELSE IF Len(o.v) # Len(f) \/ \E i \in 1..Len(f) : Len(o.v[i]) # T.n THEN "shape of the forecast"
    ELSE IF \E i \in 1..Len(f), k \in 1..T.n : ~Near(o.v[i][k], 1000 * f[i][k], 1) THEN "forecast is not the value promised"
    ELSE "ok"
QuantClause ==
    LET o == E.obs
        f == TLCEval(Forecast(T.kind, m.mem, E.xs, T.s, T.n))
        hs == IF T.cond THEN Set(E.hours) ELSE {-1}
        es == TLCEval([h \in hs, k \in 1..T.n |-> ErrorsOf(m.errs, m.hours, h, k)])
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF ~o.index THEN "quantiles do not carry the index of the rows asked"
        ELSE IF Len(o.v) # Len(f) \/ \E i \in 1..Len(f) : Len(o.v[i]) # T.n * Len(T.levels) THEN "shape of the quantiles"
        ELSE IF \E i \in 1..Len(f), k \in 1..T.n, j \in 1..Len(T.levels) :
                  LET e == es[IF T.cond THEN E.hours[i] ELSE -1, k] IN
                  ~Near(o.v[i][(k - 1) * Len(T.levels) + j], 1000 * f[i][k] + 10 * QuantileTimes(e, T.levels[j], 100), 2)
             THEN "quantile is not the forecast plus that quantile of its step's errors" ELSE "ok"
DiscreteClause ==
    LET o == E.obs
        J == T.n
        L == Len(m.support)
        S(i) == Seen(m.minutes, m.dt, E.minutes[i])
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.mutated THEN "the rows asked were modified"
        ELSE IF ~o.index THEN "forecast does not carry the index of the rows asked"
        ELSE IF o.labels # "" THEN "labels: " \o o.labels
        ELSE IF \E i \in 1..Len(E.minutes) : LET s == TLCEval(S(i)) c == Cardinality(s) IN
                  \E j \in 1..J, v \in 1..L : IF c = 0 THEN o.p[i][(j - 1) * L + v] # NA ELSE o.p[i][(j - 1) * L + v] = NA \/ ~Near(o.p[i][(j - 1) * L + v] * c, 10000 * Count(m.ys, s, j, m.support[v]), c)
             THEN "probability is not the relative frequency of the value at that time of day"
        ELSE IF \E i \in 1..Len(E.minutes) : LET s == TLCEval(S(i)) c == Cardinality(s) IN
                  \E j \in 1..J : IF c = 0 THEN o.v[i][j] # NA ELSE ~Near(o.v[i][j] * c, 1000 * SumTo([v \in 1..L |-> m.support[v] * Count(m.ys, s, j, m.support[v])], L), 2 * c)
             THEN "forecast is not the expectation of the frequencies"
        ELSE "ok"
FitClause == IF ~E.obs.ok THEN "raised: " \o E.obs.err ELSE IF E.obs.mutated THEN "training data was modified" ELSE "ok"
Clause == CASE E.op = "fit" -> FitClause [] E.op = "predict" -> PredictClause [] E.op = "quant" -> QuantClause [] OTHER -> DiscreteClause
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run" /\ m' = (IF E.op = "fit" THEN TLCEval(Trained(E)) ELSE m)
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, m>>
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, m>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
