----------------------------- MODULE SmoothTrace -----------------------------
(* Recorded trainings and forecasts of exponential smoothing against module Smoothing (values times 10000). *)
EXTENDS Smoothing, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, tr            \* tr: the training which is known
vars == <<tid, l, st, tr>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ tr = <<>>
S0 == [l |-> T.l0, b |-> T.b0, s |-> T.s0, k |-> 0]
\* a frame which continues the training is smoothed from its end, any other one from the initial state
From(cont) == IF cont THEN States(T.p, S0, tr)[Len(tr)] ELSE S0
Fc == Forecasts(T.p, From(E.cont), E.y, T.n)
\* how the first observation after missing ones is weighed is up to the filter: rows from there on are not judged
History == IF E.cont THEN tr \o E.y ELSE E.y
Judged == LET off == IF E.cont THEN Len(tr) ELSE 0
              H == History
              gap == {j \in 1..Len(H) : H[j] = Missing}
          IN  {i \in 1..Len(E.y) : ~\E j \in gap : \E k \in (j + 1)..(off + i) : H[k] # Missing}
Levels == 1..Len(T.q)
Q(k, j) == LET e == Ascending(Errors(T.p, S0, tr, T.n, k)) IN (QuantileTimes(e, T.q[j], 20) \div 20)
Same(a, b) == Abs(a - b) <= T.tol
PredClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "the caller's frame was modified"
    ELSE IF ~o.index THEN "forecasts do not carry the index of the rows asked"
    ELSE IF o.cols # T.cols THEN "forecasts are not labelled with the steps ahead"
    ELSE IF Len(o.pred) # Len(E.y) THEN "wrong number of rows"
    ELSE LET F == Fc IN IF \E i \in Judged, k \in 1..T.n : ~Same(o.pred[i][k], F[i][k]) THEN "a forecast is not that of the smoothing recursion"
    ELSE "ok"
QuantClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF Len(o.q) # Len(E.y) THEN "wrong number of rows"
    ELSE IF ~o.labels THEN "quantiles are not labelled with their step and level"
    ELSE LET F == Fc
             W == [k \in 1..T.n |-> [j \in Levels |-> Q(k, j)]]
         IN  IF \E i \in Judged, k \in 1..T.n, j \in Levels : Abs(o.q[i][k][j] - F[i][k] - W[k][j]) > 2 * T.tol THEN "a quantile is not the forecast plus that level's quantile of the errors of its own step"
             ELSE "ok"
Clause == CASE E.op = "pred" -> PredClause
            [] E.op = "quant" -> QuantClause
            [] OTHER -> IF E.obs.ok THEN "ok" ELSE "raised: " \o E.obs.err
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run" /\ tr' = IF E.op = "fit" THEN E.y ELSE tr
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, tr>>
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, tr>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
