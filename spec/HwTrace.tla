------------------------------ MODULE HwTrace ------------------------------
(***************************************************************************)
(* Histories of Holt-Winters forecasters.  The forecaster has sub-models    *)
(* (one for the simple forecaster), T.mods[k] = its gains in percent;       *)
(* T.horizons[k] is the last step which sub-model k knows; step h is served  *)
(* by the first sub-model that knows it.  States, forecasts and             *)
(* observations are scaled by 10000.  After every event the recorded state   *)
(* is compared with the one computed here and becomes the next one.          *)
(***************************************************************************)
EXTENDS HoltWinters, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, cur, saved, err
vars == <<tid, l, st, cur, saved, err>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ cur = <<>> /\ saved = <<>> /\ err = <<>>
M == Len(T.mods)
H == T.horizons[M]
Server(h) == CHOOSE k \in 1..M : T.horizons[k] >= h /\ \A j \in 1..(k - 1) : T.horizons[j] < h
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
NearState(a, b, tol) == Near(a.a, b.a, tol) /\ Near(a.b, b.b, tol) /\ NearSeq(a.s1, b.s1, tol) /\ NearSeq(a.s2, b.s2, tol)
\* what is needed of the training series: in-sample residuals of each step
Resid(ys) ==
    LET sub == TLCEval([k \in 1..M |-> States(Fresh(ys[Len(ys)], T.p1, T.p2), ys, T.mods[k])])
    IN  TLCEval([h \in 1..H |-> Ascending([r \in 1..(Len(ys) - T.horizons[Server(h)]) |-> ys[r + h] - Forecast(sub[Server(h)][r], h)])])
\* a fit ends at the end of the training series: the recursion has run over it, and again and again over its last
\* (longest) season.  What leaves the range of this arithmetic is not followed.
Big(x) == \E v \in {x.a, x.b} \cup Set(x.s1) \cup Set(x.s2) : Abs(v) > 2000000
RECURSIVE Run(_, _, _)
Run(x, ys, p) == IF ys = <<>> \/ Big(x) THEN x ELSE Run(TLCEval(Feed(x, Head(ys), p)), Tail(ys), p)
RECURSIVE Again(_, _, _, _)
Again(x, ys, p, k) == IF k = 0 \/ Big(x) THEN x ELSE Again(TLCEval(Run(x, ys, p)), ys, p, k - 1)
AfterFit(k, ys) == Again(Run(Fresh(ys[Len(ys)], T.p1, T.p2), ys, T.mods[k]), SubSeq(ys, Len(ys) - Max2(T.p1, T.p2) + 1, Len(ys)), T.mods[k], T.repeats)
Resumes(ys, states) == \A k \in 1..M : LET x == TLCEval(AfterFit(k, ys)) IN Big(x) \/ NearState(x, states[k], T.tolend)
FitClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.labels # T.labels THEN "labels of the steps differ"
    ELSE IF o.mutated THEN "caller's data was modified"
    ELSE IF ~Resumes(E.y, o.state) THEN "state after the fit is not that of the end of the training series"
    ELSE IF T.cov THEN "ok"
    ELSE LET s == Resid(E.y) IN
         IF \E h \in 1..H, j \in 1..Len(T.levels) : ~Near(100 * o.quant[h][j], QuantileTimes(s[h], T.levels[j], 100), 100 * T.tolfit)
         THEN "error quantile is not that of the residuals of its step" ELSE "ok"
\* feeding the observations of the event, from the current state
\* (predictions leave the trend alone: it is learned at fit only)
After(k) == TLCEval(States(cur[k], E.y, [T.mods[k] EXCEPT !.be = 0]))
PredClause ==
    LET o == E.obs
        subs == TLCEval([k \in 1..M |-> After(k)])
        n == Len(E.y)
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.mutated THEN "caller's data was modified"
        ELSE IF ~o.index THEN "forecast does not carry the index of the rows asked"
        ELSE IF Len(o.rows) # n THEN "wrong number of forecasts"
        ELSE IF E.op = "pred" /\ o.labels # T.labels THEN "labels of the steps differ"
        ELSE IF E.op = "pred" /\ \E r \in 1..n, h \in 1..H : ~Near(o.rows[r][h], Forecast(subs[Server(h)][r], h), T.tol) THEN "forecast is not level, trend and seasonal terms of its step"
        ELSE IF E.op = "quant" /\ \E r \in 1..n, h \in 1..H, j \in 1..Len(T.levels) : ~Near(o.rows[r][(h - 1) * Len(T.levels) + j], Forecast(subs[Server(h)][r], h) + err[h][j], T.tol)
             THEN "quantile is not the forecast of its step plus the step's error quantile"
        ELSE IF \E k \in 1..M : ~NearState(subs[k][n], o.state[k], T.tol) THEN "state after the batch is not that of the recursion"
        ELSE "ok"
\* forecasts of three frames that differ in one covariate only, by equal amounts, from the same state
CovClause ==
    LET o == E.obs
        subs == TLCEval([k \in 1..M |-> After(k)])
        n == Len(E.y)
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF \E r \in 1..n, h \in 1..H : ~Near(o.f0[r][h] + o.f2[r][h], 2 * o.f1[r][h], T.tol) THEN "correction is not linear in the covariate"
        ELSE IF \E i \in 1..3, k \in 1..M : ~NearState(subs[k][n], o.states[i][k], T.tol) THEN "state depends on the covariates or is not that of the recursion"
        ELSE "ok"
Same(o) == IF ~o.ok THEN "raised: " \o o.err ELSE IF o.state # cur THEN "state changed" ELSE "ok"
Clause == CASE E.op = "fit" -> FitClause
            [] E.op \in {"pred", "quant"} -> PredClause
            [] E.op = "cov" -> CovClause
            [] E.op = "restore" -> IF ~E.obs.ok THEN "raised: " \o E.obs.err ELSE IF E.obs.state # saved THEN "restored state differs from the saved one" ELSE "ok"
            [] E.op = "part" -> IF ~E.obs.ok THEN "raised: " \o E.obs.err
                                ELSE IF E.obs.state # <<[a |-> E.set.a, b |-> IF "b" \in DOMAIN E.set THEN E.set.b ELSE cur[1].b, s1 |-> E.set.s1, s2 |-> cur[1].s2]>> THEN "setting a part of the state did something else" ELSE "ok"
            [] OTHER -> Same(E.obs)
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN /\ l' = l + 1 /\ st' = "run" /\ cur' = (IF E.op = "cov" THEN E.obs.states[3] ELSE E.obs.state)
                                 /\ saved' = (IF E.op = "save" THEN E.obs.state ELSE saved)
                                 /\ err' = (IF E.op = "fit" THEN E.obs.quant ELSE err)
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, cur, saved, err>>
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, cur, saved, err>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
