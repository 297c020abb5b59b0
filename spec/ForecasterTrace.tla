--------------------------- MODULE ForecasterTrace ---------------------------
(***************************************************************************)
(* Validates recorded histories of real forecasters.  "fresh" events state  *)
(* what a newly constructed forecaster with parameters p, fitted on data d,  *)
(* predicts for each row of a pool; everything a history predicts must be   *)
(* the fresh value for the (parameters, data) of its last fit.              *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, params, fitted
vars == <<tid, l, st, params, fitted>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ params = 0 /\ fitted = <<>>

Fresh == T.ev[CHOOSE i \in 1..Len(T.ev) : T.ev[i].op = "fresh" /\ T.ev[i].p = fitted[1] /\ T.ev[i].d = fitted[2]]
QCols(e) == [i \in 1..(Len(e.ycols) * Len(e.levels)) |-> <<e.ycols[((i - 1) \div Len(e.levels)) + 1], e.levels[((i - 1) % Len(e.levels)) + 1]>>]
Same(got, want) == Len(got) = Len(want) /\ \A k \in 1..Len(want) : Near(got[k], want[k], T.tol)

Clause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "frame passed in was modified"
    ELSE CASE E.op = "fresh" ->
                IF o.cols # E.ycols THEN "point forecast does not carry the target columns"
                ELSE IF o.qcols # QCols(E) THEN "quantile forecast does not carry targets and levels"
                ELSE IF Len(o.v) # T.npool \/ Len(o.q) # T.npool THEN "number of rows"
                ELSE IF \E k \in 1..Len(o.alone) : \E i \in 1..T.npool : ~Near(o.v[i][o.alone[k][1]], o.alone[k][2][i], T.tol)
                     THEN "forecast of a step depends on the other targets"
                ELSE "ok"
           [] E.op = "get" -> IF o.p # params THEN "get_params does not return the parameters set" ELSE "ok"
           [] E.op = "pred" ->
                IF o.rows # E.rows THEN "index differs from the rows asked"
                ELSE IF o.cols # Fresh.ycols THEN "target columns are not those of the last training set"
                ELSE IF \E i \in 1..Len(E.rows) : ~Same(o.v[i], Fresh.obs.v[E.rows[i]]) THEN "point forecast differs from a new forecaster's"
                ELSE "ok"
           [] E.op = "predq" ->
                IF o.rows # E.rows THEN "index differs from the rows asked"
                ELSE IF o.cols # QCols(Fresh) THEN "labels of the quantiles differ"
                ELSE IF \E i \in 1..Len(E.rows) : ~Same(o.v[i], Fresh.obs.q[E.rows[i]]) THEN "quantile forecast differs from a new forecaster's"
                ELSE "ok"
           [] OTHER -> "ok"
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok"
                THEN /\ l' = l + 1 /\ st' = "run"
                     /\ params' = IF E.op = "set" THEN 1 - params ELSE params
                     /\ fitted' = IF E.op = "fit" THEN <<params, E.d>> ELSE fitted
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, params, fitted>>
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, params, fitted>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
