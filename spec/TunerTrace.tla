------------------------------ MODULE TunerTrace ------------------------------
(***************************************************************************)
(* Validates recorded tunings.  State: left, the histories seen per trace     *)
(* are independent, each event is one tuning.                                *)
(***************************************************************************)
EXTENDS Tuner, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run"
Abs(x) == IF x < 0 THEN -x ELSE x
N == E.n
Fits(log) == {i \in 1..Len(log) : log[i].e = "fit"}
Preds(log) == {i \in 1..Len(log) : log[i].e = "predict"}
\* row sets are recorded as [first, last, number of rows]; consecutive rows when last - first + 1 = number
IsRange(r, a, b) == r[1] = a /\ r[2] = b /\ r[3] = b - a + 1
Trainings(log) == {i \in Fits(log) : ~IsRange(log[i].rows, 1, N)}
Finals(log) == Fits(log) \ Trainings(log)
Limits(f) == \A h \in 1..Len(E.lims) : \A v \in 1..Len(f.par[h]) : E.lims[h][v][1] <= f.par[h][v] /\ f.par[h][v] <= E.lims[h][v][2]
TuneClause ==
    LET o == E.obs log == o.log tr == Trainings(log) fin == Finals(log)
        cands == {log[i].tok : i \in tr}
        Some(tok) == log[CHOOSE i \in tr : log[i].tok = tok]
        k == IF tr = {} THEN 0 ELSE log[CHOOSE i \in tr : TRUE].rows[2]
        S == TLCEval([tok \in cands |-> Total([a |-> Some(tok).a, b |-> Some(tok).b], k, E.nsa, E.ys)])
        best == {tok \in cands : \A u \in cands : S[tok] <= S[u]}
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.mutated THEN "the data passed was modified"
        ELSE IF \E i \in tr : ~IsRange(log[i].rows, 1, k) \/ Abs(10 * k - 7 * N) > 10 THEN "candidates are not all trained on the same initial part of the rows"
        ELSE IF Cardinality(cands) # E.trials THEN "number of candidates is not the budget"
        ELSE IF \E tok \in cands : {log[i].target : i \in {j \in tr : log[j].tok = tok}} # Set(E.targets)
                  \/ Cardinality({j \in tr : log[j].tok = tok}) # Len(E.targets)
             THEN "a candidate is not scored exactly once per target"
        ELSE IF \E i \in tr : Set(log[i].cols) # Features(Set(E.cols), Set(E.targets), log[i].target) THEN "a candidate's features are not all the columns but the other targets"
        ELSE IF \E i \in tr : ~Limits(log[i]) THEN "a candidate is outside the limits"
        ELSE IF E.spread /\ \E h \in 1..Len(E.lims) : E.lims[h][1][1] < E.lims[h][1][2] /\ Cardinality({log[i].par[h] : i \in tr}) < E.trials \div 2 THEN "candidates are not drawn anew"
        ELSE IF \E i \in tr : ~\E j \in Preds(log) : log[j].m = log[i].m THEN "a candidate was not scored"
        ELSE IF \E j \in Preds(log) : ~\E i \in tr : log[j].m = log[i].m THEN "a model was scored on rows it was trained on"
        ELSE IF \E j \in Preds(log) : ~IsRange(log[j].rows, k + 1, N) THEN "a candidate is not scored on the rows after those it was trained on"
        ELSE IF o.tok \notin cands THEN "the parameters returned are not those of a candidate"
        ELSE IF o.tok \notin best THEN "the candidate kept is not the best one"
        ELSE IF E.refit /\ (Cardinality(fin) # 1 \/ \E i \in fin : log[i].tok # o.tok \/ log[i].target # E.target \/ Set(log[i].cols) # Set(E.cols))
             THEN "the model is not refitted on all the data with the best parameters"
        ELSE IF ~E.refit /\ fin # {} THEN "a model was fitted which nobody asked for"
        ELSE IF o.target # E.target \/ Set(o.targets) # Set(E.targets) THEN "the targets of the tuned model are not the ones given"
        ELSE "ok"
\* real forecasters: within limits, and equal to a model built with the tuned parameters and fitted alone
RealClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF \E i \in 1..Len(o.pars) : o.pars[i][1] < o.pars[i][2] \/ o.pars[i][1] > o.pars[i][3] THEN "tuned parameters are outside the limits"
    ELSE IF o.untouched THEN "tuning left the parameters as they were"
    ELSE IF o.target # E.target THEN "the target of the tuned model is not the one given"
    ELSE IF Len(o.got) # Len(o.alone) \/ \E i \in 1..Len(o.got) : Abs(o.got[i] - o.alone[i]) > 1 THEN "forecasts differ from those of a model with the tuned parameters fitted alone"
    ELSE IF Len(o.qgot) # Len(o.qalone) \/ \E i \in 1..Len(o.qgot) : Abs(o.qgot[i] - o.qalone[i]) > 1 THEN "quantiles differ from those of a model with the tuned parameters fitted alone"
    ELSE "ok"
Clause == IF E.op = "tune" THEN TuneClause ELSE RealClause
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run"
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED l
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
