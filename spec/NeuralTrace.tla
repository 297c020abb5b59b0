----------------------------- MODULE NeuralTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of real neural forecasters.  "fresh" events *)
(* state what a new network with parameters p, fitted on data d, predicts    *)
(* for each row of a pool, and from which rows its error quantiles come;     *)
(* everything a history predicts must be the fresh value for the pair of     *)
(* its last fit.  "twin" events state the same network trained on data that  *)
(* were normalised beforehand: forecasts are those of the twin, brought back *)
(* to the scale of the targets.  Levels are a/100.                            *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, params, fitted, file
vars == <<tid, l, st, params, fitted, file>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ params = 0 /\ fitted = <<>> /\ file = <<>>

Dom(s) == 1..Len(s)
FreshOf(p, d) == T.ev[CHOOSE i \in 1..Len(T.ev) : T.ev[i].op = "fresh" /\ T.ev[i].p = p /\ T.ev[i].d = d]
Fresh == FreshOf(fitted[1], fitted[2])
Same(got, want) == Len(got) = Len(want) /\ \A k \in Dom(want) : Near(got[k], want[k], T.tol)
Missing(s) == \E i \in Dom(s) : \E k \in Dom(s[i]) : s[i][k] < -900000000

\* ---- quantiles: point forecast plus the error quantile of the validation rows, of the same hour if asked and possible
NVal(e) == IF e.num = -1 THEN e.n ELSE (e.n * e.num) \div e.den
ValRows(e) == [i \in 1..NVal(e) |-> e.n - NVal(e) + i]
Hours(e) == {e.hours[r] : r \in Set(ValRows(e))}
Rows(e, h) == IF e.cond /\ Cardinality(Hours(e)) = 24 THEN SelectSeq(ValRows(e), LAMBDA r : e.hours[r] = h) ELSE ValRows(e)
Errors(e, h, k) == LET R == Rows(e, h) IN Ascending([i \in 1..Len(R) |-> e.y[R[i]][k] - e.pred[R[i]][k]])
\* ---- or of a normal distribution: 1000 times the quantiles of the standard one
Half == [q \in {50, 60, 70, 75, 80, 90, 95, 99} |-> CASE q = 50 -> 0 [] q = 60 -> 253 [] q = 70 -> 524 [] q = 75 -> 674 [] q = 80 -> 842 [] q = 90 -> 1282 [] q = 95 -> 1645 [] OTHER -> 2326]
Z(q) == IF q >= 50 THEN Half[q] ELSE -Half[100 - q]

FreshClause ==
    LET o == E.obs
        NQ == Len(E.levels)
        NK == Len(E.ycols)
        hs == Set(E.poolhours)
        tab == TLCEval([h \in hs |-> [k \in 1..NK |-> LET s == TLCEval(Errors(E, h, k)) IN [j \in 1..NQ |-> QuantileTimes(s, E.levels[j], 100)]]])
    IN  IF o.cols # E.ycols THEN "point forecast does not carry the target columns"
        ELSE IF Len(o.v) # T.npool \/ Len(o.q) # T.npool \/ \E i \in Dom(o.q) : Len(o.q[i]) # NK * NQ THEN "number of rows, targets or levels"
        ELSE IF Missing(o.v) \/ Missing(o.q) THEN "forecast missing or infinite"
        ELSE IF E.prob /\ \E i \in 1..T.npool, k \in 1..NK, j \in 1..NQ :
                ~Near(o.q[i][(k - 1) * NQ + j], o.v[i][k] + ((o.sigma[i][k] * Z(E.levels[j])) \div 1000), T.tol + 1 + (o.sigma[i][k] \div 1000))
             THEN "quantile is not the mean plus its multiple of the standard deviation"
        ELSE IF E.prob /\ \E i \in 1..T.npool, k \in 1..NK : o.sigma[i][k] < 0 THEN "negative standard deviation"
        ELSE IF ~E.prob /\ \E i \in 1..T.npool, k \in 1..NK, j \in 1..NQ : ~Near(100 * (o.q[i][(k - 1) * NQ + j] - o.v[i][k]), tab[E.poolhours[i]][k][j], 100 * T.tol)
             THEN "quantile is not the point forecast plus the error quantile of the validation rows"
        ELSE IF E.mustlearn /\ ~E.learned THEN "the network was not trained"
        ELSE "ok"
TwinClause ==
    LET o == E.obs
        f == FreshOf(E.p, E.d).obs
    IN  IF Missing(o.w) THEN "forecast missing or infinite"
        ELSE IF \E i \in Dom(o.w), k \in Dom(E.mean) : ~Near(f.v[i][k], E.mean[k] + E.std[k] * o.w[i][k], E.std[k] * T.tol) THEN "forecast is not brought back to the scale of the target"
        ELSE IF \E i \in Dom(o.s), k \in Dom(E.mean) : ~Near(f.sigma[i][k], E.std[k] * o.s[i][k], E.std[k] * T.tol) THEN "standard deviation is not brought back to the scale of the target"
        ELSE "ok"

\* a formatter that normalises: the forecasts are those of the network trained on its targets, times (or plus) each row's normaliser
NormClause ==
    LET o == E.obs
        Want(i, k) == IF E.ratio THEN (o.w[i][k] * E.m[i]) \div 1000 ELSE o.w[i][k] + E.m[i]
        Dev(i, k) == IF E.ratio THEN (o.ws[i][k] * E.m[i]) \div 1000 ELSE o.ws[i][k]
    IN  IF Missing(o.w) \/ Missing(o.v) THEN "forecast missing or infinite"
        ELSE IF \E i \in Dom(o.w) : \E k \in Dom(o.w[i]) : ~Near(o.v[i][k], Want(i, k), E.tol) THEN "forecast is not in the units of the original target"
        ELSE IF \E i \in Dom(o.ws) : \E k \in Dom(o.ws[i]) : ~Near(o.sigma[i][k], Dev(i, k), E.tol) THEN "standard deviation is not in the units of the original target"
        ELSE "ok"
Clause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "frame passed in was modified"
    ELSE CASE E.op = "fresh" -> FreshClause
           [] E.op = "twin" -> TwinClause
           [] E.op = "norm" -> NormClause
           [] E.op = "get" -> IF o.p # params THEN "parameters are not those which were set" ELSE "ok"
           [] E.op = "pred" ->
                IF o.rows # E.rows THEN "index differs from the rows asked"
                ELSE IF o.cols # Fresh.ycols THEN "target columns are not those of the last training set"
                ELSE IF \E i \in Dom(E.rows) : ~Same(o.v[i], Fresh.obs.v[E.rows[i]]) THEN "point forecast differs from a new forecaster's"
                ELSE "ok"
           [] E.op = "predq" ->
                IF Len(o.v) # Len(E.rows) THEN "number of rows differs from the rows asked"
                ELSE IF \E i \in Dom(E.rows) : ~Same(o.v[i], Fresh.obs.q[E.rows[i]]) THEN "quantile forecast differs from a new forecaster's"
                ELSE "ok"
           [] OTHER -> "ok"
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok"
                THEN /\ l' = l + 1 /\ st' = "run"
                     /\ params' = IF E.op = "set" THEN 1 - params ELSE IF E.op = "load" THEN file[1] ELSE params
                     /\ fitted' = IF E.op = "fit" THEN <<params, E.d>> ELSE IF E.op = "load" THEN file[2] ELSE IF E.op = "clone" THEN <<>> ELSE fitted
                     /\ file' = IF E.op = "save" THEN <<params, fitted>> ELSE file
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, params, fitted, file>>
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, params, fitted, file>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
