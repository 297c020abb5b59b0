----------------------------- MODULE AdaptTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of adaptive forecasters.  A forecaster has  *)
(* one or more experts (T.pars), each a Fourier forecaster; with more than   *)
(* one, the forecast is the average weighted by how close the experts'       *)
(* earlier forecasts were to the last observation (T.mix: kappa, rho, table  *)
(* of exponentials in module Exponential).  Rows of a prediction are known    *)
(* by their observations E.y; "window" events check the recent history.      *)
(***************************************************************************)
EXTENDS Fourier, Exponential, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, cur, wt, err
vars == <<tid, l, st, cur, wt, err>>
T == Traces[tid]
E == T.ev[l]
M == Len(T.pars)
N == T.n
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ cur = <<>> /\ err = <<>>
        /\ wt = [x |-> [j \in 1..Len(Traces[tid].pars) |-> 10000 \div Len(Traces[tid].pars)], g |-> Traces[tid].mix.rho, sure |-> TRUE]
Fit == E.op = "fit"
From(j) == IF cur = <<>> THEN Begin(T.pars[j], E.y[1]) ELSE cur[j]
\* states of every expert after every row, and their forecasts (scaled by 1000)
Runs == TLCEval([j \in 1..M |-> Run(T.pars[j], From(j), E.y)])
Tables(runs) == TLCEval([j \in 1..M |-> Table(T.pars[j], runs[j])])
\* sum of the absolute errors of the forecasts made for row i, over the steps they were ahead
ErrOf(F, i) == SumTo([h \in 1..N |-> Abs(F[i - h][h] - S * E.y[i])], N)
\* weights after row i
Reweigh(w, F, i) ==
    LET g == Gain(w.g, T.mix.kappa)
        e == TLCEval([j \in 1..M |-> ErrOf(F[j], i)])
        tot == SumTo(e, M)
        \* relative errors scaled by 10000 (they sum to 10000 * M)
        u == [j \in 1..M |-> IF tot = 0 THEN 10000 ELSE ((e[j] * 1000) \div ((tot \div 10) + 1)) * M]
        x == [j \in 1..M |-> Exp(u[j])]
        sx == SumTo(x, M)
    IN  IF i <= N THEN [w EXCEPT !.g = g]
        ELSE TLCEval([x |-> [j \in 1..M |-> Mix(g, Div(x[j] * 1000, sx \div 10), w.x[j])], g |-> g, sure |-> w.sure /\ (tot > 2000 \/ (tot = 0 /\ M > 1))])
RECURSIVE Weights(_, _, _)
Weights(w, F, i) == IF i > Len(E.y) THEN <<>> ELSE LET v == TLCEval(Reweigh(w, F, i)) IN <<v>> \o Weights(v, F, i + 1)
Blend(w, F, i, h) == Div(SumTo([j \in 1..M |-> w.x[j] * F[j][i][h]], M), SumTo(w.x, M))
MinF(F, i, h) == CHOOSE v \in {F[j][i][h] : j \in 1..M} : \A j \in 1..M : v <= F[j][i][h]
MaxF(F, i, h) == CHOOSE v \in {F[j][i][h] : j \in 1..M} : \A j \in 1..M : v >= F[j][i][h]
\* is v the forecast of row i, step h?
IsForecast(v, ws, F, i, h) ==
    IF Abs(v) > 20000000 THEN FALSE
    ELSE IF M = 1 THEN Near(v, F[1][i][h], T.tol)
    ELSE IF T.exact /\ ws[i].sure THEN Near(v, Blend(ws[i], F, i, h), T.tolmix)
    ELSE v >= MinF(F, i, h) - T.tol /\ v <= MaxF(F, i, h) + T.tol
\* forecasts made during training, as residuals of each step in ascending order
Resid(ws, F) == [h \in 1..N |-> Ascending([r \in 1..(Len(E.y) - N) |-> S * E.y[r + h] - (IF M = 1 THEN F[1][r][h] ELSE Blend(ws[r], F, r, h))])]
FitClause(ws, F) ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "caller's data was modified"
    ELSE IF M > 1 /\ ~(T.exact /\ \A i \in 1..Len(ws) : ws[i].sure) THEN "ok"
    ELSE LET s == TLCEval(Resid(ws, F)) IN
         IF \E h \in 1..N, k \in 1..Len(T.levels) : Abs(o.quant[h][k]) > 20000000 \/ ~Near(100 * o.quant[h][k], QuantileTimes(s[h], T.levels[k], 100), 100 * (IF M = 1 THEN T.tol ELSE T.tolmix))
         THEN "error quantile is not that of the residuals of its step" ELSE "ok"
PredClause(ws, F) ==
    LET o == E.obs
        K == Len(T.levels)
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.mutated THEN "caller's data was modified"
        ELSE IF ~o.index THEN "forecast does not carry the index of the rows asked"
        ELSE IF Len(o.rows) # Len(E.y) THEN "wrong number of forecasts"
        ELSE IF E.op = "pred" /\ o.labels # T.labels THEN "labels of the steps differ"
        ELSE IF E.op = "pred" /\ \E r \in 1..Len(E.y), h \in 1..N : ~IsForecast(o.rows[r][h], ws, F, r, h)
             THEN "forecast is not that of the training history followed by the rows up to it"
        ELSE IF E.op = "quant" /\ \E r \in 1..Len(E.y), h \in 1..N, k \in 1..K : ~IsForecast((IF Abs(o.rows[r][(h - 1) * K + k]) > 20000000 THEN o.rows[r][(h - 1) * K + k] ELSE o.rows[r][(h - 1) * K + k] - err[h][k]), ws, F, r, h)
             THEN "quantile is not the forecast of its step plus the step's error quantile"
        ELSE "ok"
WindowClause ==
    LET o == E.obs
        all == E.w \o SubSeq(E.y, 1, E.i)
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.w # SubSeq(all, Len(all) - Len(E.w) + 1, Len(all)) THEN "recent history is not the last m observations"
        ELSE IF o.mutated THEN "stored history was modified" ELSE "ok"
\* long runs, where the noise of the filters is learned from the data: forecasts a of a frame, again after others,
\* of the same rows before a different continuation, by a copy, by the experts; quantiles of some rows
LongClause ==
    LET o == E.obs
        K == Len(T.levels)
        Finite(m) == \A r \in 1..Len(m) : \A h \in 1..Len(m[r]) : Abs(m[r][h]) < 20000000
        Like(m, k) == Len(m) = k /\ \A r \in 1..k : \A h \in 1..N : Near(m[r][h], o.a[r][h], T.tol)
        n == Len(o.a)
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF ~Finite(o.a) \/ ~Finite(o.q) THEN "forecast is not a number"
        ELSE IF ~Like(o.again, n) THEN "prediction changed what later predictions give"
        ELSE IF ~Like(o.prefix, E.cut) THEN "forecast depends on later observations"
        ELSE IF ~Like(o.copied, n) THEN "copy predicts something else"
        ELSE IF \E r \in 1..n, h \in 1..N, k \in 1..K : ~Near(o.q[r][(h - 1) * K + k] - o.a[r][h], o.q[1][(h - 1) * K + k] - o.a[1][h], 2 * T.tol)
             THEN "quantiles are not the forecast plus the error quantiles of the step"
        ELSE IF \E r \in 1..n, h \in 1..N, k \in 1..(K - 1) : o.q[r][(h - 1) * K + k] > o.q[r][(h - 1) * K + k + 1] + 2 THEN "quantiles decrease"
        ELSE IF o.experts # <<>> /\ \E r \in 1..n, h \in 1..N :
                  LET v == {o.experts[j][r][h] : j \in 1..Len(o.experts)}
                  IN  (\A x \in v : x > o.a[r][h] + T.tol) \/ (\A x \in v : x < o.a[r][h] - T.tol)
             THEN "combined forecast is outside the experts' forecasts"
        ELSE "ok"
Clause(ws, F) == CASE E.op = "long" -> LongClause
                   [] Fit -> FitClause(ws, F)
                   [] E.op \in {"pred", "quant"} -> PredClause(ws, F)
                   [] E.op = "window" -> WindowClause
                   [] OTHER -> IF ~E.obs.ok THEN "raised: " \o E.obs.err ELSE "ok"
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET runs == IF E.op \in {"fit", "pred", "quant"} THEN Runs ELSE <<>>
                  F == Tables(runs)
                  ws == IF M > 1 /\ runs # <<>> THEN Weights(wt, F, 1) ELSE <<>>
                  c == Clause(ws, F)
              IN IF c = "ok" THEN /\ l' = l + 1 /\ st' = "run"
                                  /\ cur' = (IF Fit THEN [j \in 1..M |-> runs[j][Len(E.y)]] ELSE cur)
                                  /\ wt' = (IF Fit /\ M > 1 THEN ws[Len(E.y)] ELSE wt)
                                  /\ err' = (IF Fit THEN E.obs.quant ELSE err)
                 ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, cur, wt, err>>
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, cur, wt, err>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
