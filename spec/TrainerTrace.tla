---------------------------- MODULE TrainerTrace -----------------------------
(***************************************************************************)
(* Validates recorded cross validations and studies of one model object.      *)
(* State: m, the parameters its owner gave it; drawn, how often each fold was *)
(* drawn by random-fold tuning.  Recorded scores are scaled by 1000 (nmae by    *)
(* 10000), deviations by 10.                                                 *)
(***************************************************************************)
EXTENDS Trainer, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, m
vars == <<tid, l, st, m>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ m = [a |-> 0, b |-> 0]
Near(x, y, tol) == Abs(x - y) <= tol
Y == T.y
(* ---- one evaluation: the entries of the log of a cross validation with parameters p on the given folds ---- *)
Fits(log) == {i \in 1..Len(log) : log[i].e = "fit"}
Preds(log) == {i \in 1..Len(log) : log[i].e = "predict"}
SameRows(s, t) == Len(s) = Len(t) /\ Set(s) = Set(t)
FitOf(log, tok) == CHOOSE i \in Fits(log) : log[i].m = tok
LogClause(log, folds, p, mode) ==
    IF \E i \in 1..Len(log) : ~log[i].aligned THEN "rows of the features and of the targets do not belong together"
    ELSE IF \E i \in Fits(log) : log[i].a # p.a \/ log[i].b # p.b \/ log[i].c # p.a + 2 * p.b THEN "a model was not fitted with the parameters of the trial"
    ELSE IF \E i, j \in Fits(log) : i # j /\ log[i].m = log[j].m THEN "a model was fitted twice"
    ELSE IF mode = "full" /\ \E f \in 1..Len(folds) :
              Cardinality({i \in Fits(log) : SameRows(log[i].ids, folds[f].tr)}) # Cardinality({g \in 1..Len(folds) : SameRows(folds[g].tr, folds[f].tr)})
         THEN "not one model per fold, fitted on the fold's training rows"
    ELSE IF mode = "full" /\ Cardinality(Fits(log)) # Len(folds) THEN "more models than folds"
    ELSE IF mode = "random" /\ Cardinality(Fits(log)) # 1 THEN "not exactly one model was fitted"
    ELSE IF \E i \in Fits(log) : ~\E f \in 1..Len(folds) : SameRows(log[i].ids, folds[f].tr) THEN "a model was fitted on other rows than the fold's training rows"
    ELSE IF \E i \in Preds(log) : ~\E j \in Fits(log) : log[j].m = log[i].m THEN "a model was used which this evaluation did not fit"
    ELSE IF \E i \in Preds(log) : LET j == FitOf(log, log[i].m) IN
              ~\E f \in 1..Len(folds) : SameRows(log[j].ids, folds[f].tr) /\ SameRows(log[i].ids, folds[f].te)
         THEN "a model was scored on other rows than the fold's test rows"
    ELSE "ok"
\* the folds an evaluation can be about: all of them, or one whose rows are the ones used
UsedFolds(log, folds) == {f \in 1..Len(folds) : /\ \E i \in Fits(log) : SameRows(log[i].ids, folds[f].tr)
                                                /\ \A i \in Preds(log) : SameRows(log[i].ids, folds[f].te)}
\* recorded v is the mean over the folds fs of the scores of the metric
ValueOk(v, metric, p, folds, fs) ==
    LET s == [i \in 1..Len(fs) |-> FoldScore(metric, p, folds[fs[i]], Y)] n == Len(fs) IN
    IF Abs(v) > 100000000 THEN FALSE ELSE IF metric # "nmae" THEN Near(v * n, 1000 * SumSeq(s), n)
    \* targets are all 10 or -10: the score of a fold is its mean error over 10.1
    ELSE LET q == [i \in 1..n |-> (100000 * s[i]) \div (101 * Len(folds[fs[i]].te) * Len(Y[1]))] IN Near(v * n, SumSeq(q), 2 * n)
AllFolds(folds) == [i \in 1..Len(folds) |-> i]
StoreClause(o, p, folds, mode, fs) ==
    IF mode = "full" THEN
        IF Len(o.yte) # Len(folds) \/ Len(o.yhat) # Len(folds) THEN "stored results: not one per fold"
        ELSE IF \E f \in 1..Len(folds) : o.yte[f] # FoldTrue(folds[f], Y) THEN "stored targets are not those of the fold's test rows"
        ELSE IF \E f \in 1..Len(folds) : o.yhat[f] # FoldPred(p, folds[f], Y) THEN "stored predictions are not those of the fold's model for its test rows"
        ELSE "ok"
    ELSE IF ~\E f \in fs : o.yte[1] = FoldTrue(folds[f], Y) THEN "stored targets are not those of the fold's test rows"
    ELSE IF ~\E f \in fs : o.yte[1] = FoldTrue(folds[f], Y) /\ o.yhat[1] = FoldPred(p, folds[f], Y) THEN "stored predictions are not those of the fold's model for its test rows"
    ELSE "ok"
CvClause ==
    LET o == E.obs folds == E.folds c == LogClause(o.log, folds, m, E.mode) fs == UsedFolds(o.log, folds)
        Value(mt, v) == IF E.mode = "full" THEN ValueOk(v, mt, m, folds, AllFolds(folds)) ELSE \E f \in fs : ValueOk(v, mt, m, folds, <<f>>)
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.mutated THEN "the data passed was modified"
        ELSE IF c # "ok" THEN c
        ELSE IF ~Value(E.metrics[E.key], o.score) THEN "score is not the mean over the folds"
        ELSE IF E.mode = "full" /\ \E k \in 1..Len(E.metrics) : Len(o.scores[k]) # Len(folds) THEN "scores: not one per fold"
        ELSE IF E.mode = "full" /\ \E k \in 1..Len(E.metrics), f \in 1..Len(folds) : ~ValueOk(o.scores[k][f], E.metrics[k], m, folds, <<f>>) THEN "score of a fold is not the one of its test rows"
        ELSE IF E.mode = "random" /\ \E k \in 1..Len(E.metrics) : Len(o.scores[k]) # 1 \/ ~Value(E.metrics[k], o.scores[k][1]) THEN "score of the fold is not the one of its test rows"
        ELSE IF E.store THEN StoreClause(o, m, folds, E.mode, fs) ELSE "ok"
TrialLog(o, t) == SelectSeq(o.log, LAMBDA x : x.t = t)
TrialClause(o, t) ==
    LET p == Effective(m, o.given[t]) log == TLCEval(TrialLog(o, t)) c == LogClause(log, E.folds, p, E.mode) fs == UsedFolds(log, E.folds) d == o.trials[t] IN
    IF c # "ok" THEN c
    ELSE IF d.number # t - 1 THEN "trials are not numbered in order"
    ELSE IF d.a # o.given[t].a \/ d.b # o.given[t].b THEN "history: parameters are not those of the trial"
    ELSE IF E.mode = "full" /\ ~ValueOk(d.value, E.metrics[1], p, E.folds, AllFolds(E.folds)) THEN "history: value is not the mean over the folds of the trial's scores"
    ELSE IF E.mode = "random" /\ ~\E f \in fs : ValueOk(d.value, E.metrics[1], p, E.folds, <<f>>) THEN "history: value is not the score of the trial's fold"
    ELSE IF E.metrics[1] # "nmae" /\ d.rank # Rank([i \in 1..E.n |-> o.trials[i].value], t) THEN "history: rank"
    ELSE IF E.mode = "full" /\ E.metrics[1] # "nmae" /\
              LET s == [i \in 1..Len(E.folds) |-> FoldScore(E.metrics[1], p, E.folds[i], Y)] n == Len(s)
                  v == n * SumSeq([i \in 1..n |-> s[i] * s[i]]) - SumSeq(s) * SumSeq(s)
              IN  ~Near(d.std * d.std * n * n, 100 * v, (2 * d.std + 1) * n * n)
         THEN "history: deviation over the folds"
    ELSE IF E.store THEN StoreClause([yte |-> o.stored[t].yte, yhat |-> o.stored[t].yhat], p, E.folds, E.mode, fs) ELSE "ok"
StudyClause ==
    LET o == E.obs
        bad == {t \in 1..E.n : TrialClause(o, t) # "ok"}
        hits == [f \in 1..Len(E.folds) |-> Cardinality({t \in 1..E.n : f \in UsedFolds(TrialLog(o, t), E.folds)})]
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.mutated THEN "the data passed was modified"
        ELSE IF o.ntrials # E.n \/ Len(o.trials) # E.n \/ Len(o.given) # E.n THEN "history does not have one entry per trial"
        ELSE IF \E i \in 1..Len(o.log) : o.log[i].t = 0 THEN "a model was fitted or used outside a trial"
        ELSE IF E.store /\ Len(o.stored) # E.n THEN "not one stored result per trial"
        ELSE IF bad # {} THEN LET t == CHOOSE t \in bad : \A u \in bad : t <= u IN "trial " \o ToString(t) \o ": " \o TrialClause(o, t)
        ELSE IF o.a # m.a \/ o.b # m.b THEN "the parameters of the model passed were changed"
        \* with two or three folds and 60 trials or more a fold is missed with probability below 1e-9
        ELSE IF E.mode = "random" /\ E.n >= 60 /\ \E f \in 1..Len(E.folds) : hits[f] = 0 THEN "a fold is never drawn"
        ELSE "ok"
UnknownClause ==
    LET o == E.obs IN
    IF o.ok THEN "parameters unknown to the model were not refused"
    ELSE IF o.kind # "ValueError" THEN "raised: " \o o.err
    ELSE IF \E i \in 1..Len(o.log) : o.log[i].t = o.at THEN "a model was fitted in a trial with unknown parameters"
    ELSE "ok"
\* real forecasters: what a fold's model forecasts is what a model built and fitted alone forecasts
RealClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF Len(o.trials) # E.n THEN "history does not have one entry per trial"
    ELSE IF \E t \in 1..E.n : Len(o.trials[t].folds) # E.nf THEN "stored results: not one per fold"
    ELSE IF \E t \in 1..E.n, f \in 1..E.nf : LET r == o.trials[t].folds[f] IN
              Len(r.got) # Len(r.alone) \/ \E i \in 1..Len(r.got) : ~Near(r.got[i], r.alone[i], 2)
         THEN "forecasts of a fold's model differ from those of a model with the trial's parameters fitted on the fold's training rows"
    ELSE IF \E t \in 1..E.n, f \in 1..E.nf : LET r == o.trials[t].folds[f] IN
              r.nscen # E.nscen \/ r.levels # E.levels
         THEN "a fold's model lost the configuration of its scenarios"
    ELSE "ok"
KernelClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF \E t \in 1..Len(o.flat) : (o.flat[t] = 1) # (o.std[t] = 0) THEN "tuned kernel parameters have no effect" ELSE "ok"
Clause == CASE E.op = "replace" -> (IF E.obs.ok THEN "ok" ELSE "raised: " \o E.obs.err)
            [] E.op = "cv" -> CvClause [] E.op = "study" -> StudyClause [] E.op = "unknown" -> UnknownClause
            [] E.op = "real" -> RealClause [] OTHER -> KernelClause
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run" /\ m' = (IF E.op = "replace" THEN [a |-> E.a, b |-> E.b] ELSE m)
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, m>>
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, m>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
