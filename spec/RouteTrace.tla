----------------------------- MODULE RouteTrace -----------------------------
(***************************************************************************)
(* Routing of multi-step forecasters.  The formatter's configuration (trs,  *)
(* tgts) determines, through the pruning rule of module Formatter, which    *)
(* features the model of each single step may and must see; the shared      *)
(* model sees all of them.                                                  *)
(***************************************************************************)
EXTENDS Formatter, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run"
Close(a, b, tol) == Abs(a - b) <= tol
RouteClause ==
    LET o == E.obs
        xc == AllCols(T.trs)
        Sel(k) == LET s == Selected(T.trs, T.tgts, E.dt, [E.rule EXCEPT !.target = k]) IN {xc[s[i]] : i \in 1..Len(s)}
        sel == TLCEval([k \in 1..E.K |-> IF E.hasfm /\ k <= E.nsingle THEN Sel(k) ELSE {xc[i] : i \in 1..Len(xc)}])
        allmeta == ~E.hasfm
        Metas(k) == IF E.hasfm /\ k <= E.nsingle THEN {E.metafeats[i] : i \in 1..Len(E.metafeats)} ELSE {E.cal[i] : i \in 1..Len(E.cal)}
        Sens(k) == {o.sens[k][i] : i \in 1..Len(o.sens[k])}
        SensCal(k) == {o.senscal[k][i] : i \in 1..Len(o.senscal[k])}
        Seen(k) == E.driver[k] \in sel[k]
    IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.cols # E.ycols THEN "target columns differ"
    ELSE IF \E k \in 1..E.K : ~(Sens(k) \subseteq sel[k]) THEN "a step depends on a feature not selected for it"
    ELSE IF \E k \in 1..E.K : ~(SensCal(k) \subseteq Metas(k)) THEN "a step depends on a calendar feature not kept for it"
    ELSE IF \E k \in 1..E.K : Seen(k) /\ \E i \in 1..Len(E.y) : ~Close(o.v[i][k], E.y[i][k], E.tol) THEN "a step is not forecast by the model trained for it"
    ELSE IF E.exact /\ \E k \in 1..E.K : Seen(k) /\ E.varies[k] /\ E.driver[k] \notin Sens(k) THEN "a step does not see a feature selected for it"
    ELSE "ok"
Clause ==
    CASE E.op = "route" -> RouteClause
      [] E.op = "same" -> IF ~E.obs.ok THEN "raised: " \o E.obs.err
                          ELSE IF Len(E.obs.a) # Len(E.obs.b) \/ \E i \in 1..Len(E.obs.a) : Len(E.obs.a[i]) # Len(E.obs.b[i]) \/ \E k \in 1..Len(E.obs.a[i]) : ~Close(E.obs.a[i][k], E.obs.b[i][k], 2) THEN E.what ELSE "ok"
      [] OTHER -> IF E.obs.ok THEN "ok" ELSE "raised: " \o E.obs.err
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run"
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED l
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
