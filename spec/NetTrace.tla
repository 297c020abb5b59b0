------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* Recorded evaluations of real networks against the shapes that Network    *)
(* guarantees: along straight lines of the controls (everything else kept)  *)
(* the outputs of input convex networks are convex, those of monotone ones  *)
(* increase; bounded outputs stay within their bounds; invertible networks  *)
(* give back what they embedded and let no output depend on later inputs;   *)
(* optimised controls are found where the objective is least, and the rest  *)
(* of the inputs is kept.                                                    *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run"

Dom(s) == 1..Len(s)
K(s) == 1..Len(s[1])
\* the points asked: from + t * dir in the columns of the controls, the base row elsewhere
Point(t) == [c \in Dom(T.cols) |-> LET I == {i \in Dom(T.ctrl) : T.ctrl[i] = T.cols[c]}
                                  IN  IF I = {} THEN E.base[c] ELSE E.base[c] + t * E.dir[CHOOSE i \in I : TRUE]]
Missing(s) == \E i \in Dom(s) : \E k \in Dom(s[i]) : s[i][k] < -900000000
LineClause ==
    LET o == E.obs
        n == Len(E.rows)
    IN  IF \E t \in 1..n : E.rows[t] # Point(t - 1) THEN "harness"
        ELSE IF ~o.ok THEN "raised: " \o o.err
        ELSE IF Len(o.v) # n \/ \E i \in 1..n : Len(o.v[i]) # Len(T.ycols) THEN "number of rows or targets"
        ELSE IF o.cols # T.ycols \/ ~o.index THEN "forecasts are labelled otherwise"
        ELSE IF Missing(o.v) THEN "forecast missing or infinite"
        ELSE IF T.kind = "convex" /\ \E k \in K(o.v) : \E i \in 2..(n - 1) : (o.v[i - 1][k] - o.v[i][k]) + (o.v[i + 1][k] - o.v[i][k]) < -T.tol
             THEN "output is not convex in the controls"
        ELSE IF T.kind = "monotone" /\ (\A i \in Dom(E.dir) : E.dir[i] >= 0) /\ \E k \in K(o.v) : \E i \in 1..(n - 1) : o.v[i + 1][k] < o.v[i][k] - T.tol
             THEN "output decreases with a control"
        ELSE IF T.lo # <<>> /\ \E k \in K(o.v) : \E i \in 1..n : o.v[i][k] < T.lo[k] - T.tol \/ o.v[i][k] > T.hi[k] + T.tol THEN "output leaves its bounds"
        ELSE "ok"
InvertClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF ~o.index THEN "inverse is labelled otherwise"
    ELSE IF Len(o.back) # Len(E.x) THEN "number of rows"
    ELSE IF \E i \in Dom(E.x) : \E j \in Dom(E.x[i]) : ~Near(o.back[i][j], E.x[i][j], E.tol) THEN "inverse does not give back the inputs"
    ELSE "ok"
\* adding E.by to input E.j: earlier outputs do not move, its own one grows with it
CausalClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF Missing(o.base) \/ Missing(o.moved) THEN "embedding missing or infinite"
    ELSE IF \E i \in Dom(o.base) : \E k \in 1..(E.j - 1) : o.moved[i][k] # o.base[i][k] THEN "embedding depends on a later input"
    ELSE IF \E i \in Dom(o.base) : o.moved[i][E.j] <= o.base[i][E.j] THEN "embedding does not grow with its own input"
    ELSE "ok"
\* exogenous inputs may stand anywhere among the columns
OrderClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF Missing(o.v) THEN "forecast missing or infinite"
    ELSE IF o.cols # T.ycols \/ ~o.index THEN "forecasts are labelled otherwise"
    ELSE IF \E i \in Dom(o.v) : \E k \in Dom(o.v[i]) : ~Near(o.v[i][k], o.moved[i][k], E.tol) THEN "forecast depends on where the exogenous columns stand"
    ELSE "ok"
OptimClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "frame passed in was modified"
    ELSE IF o.cols # T.cols \/ ~o.index THEN "optimised inputs are labelled otherwise"
    ELSE IF \E c \in Dom(T.cols) : T.cols[c] \notin Set(T.ctrl) /\ ~Near(o.inputs[c], E.base[c] * T.scale, T.tol) THEN "an input which is no control was changed"
    ELSE IF Len(o.yopt) # Len(T.ctrl) \/ \E i \in Dom(T.ctrl) : \E c \in Dom(T.cols) : T.cols[c] = T.ctrl[i] /\ o.inputs[c] # o.yopt[i] THEN "returned controls are not those of the returned inputs"
    ELSE IF o.target # o.again THEN "returned forecast is not the forecast of the returned inputs"
    ELSE IF E.goal # <<>> /\ \E i \in Dom(E.goal) : ~Near(o.yopt[i], E.goal[i], E.within[i]) THEN "controls are not where the objective is least"
    ELSE "ok"
Clause == CASE E.op = "line" -> LineClause
            [] E.op = "invert" -> InvertClause
            [] E.op = "causal" -> CausalClause
            [] E.op = "order" -> OrderClause
            [] E.op = "optimize" -> OptimClause
            [] OTHER -> IF E.obs.ok THEN "ok" ELSE "raised: " \o E.obs.err
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run"
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED l
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
