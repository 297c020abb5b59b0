----------------------------- MODULE TreeTrace -----------------------------
(***************************************************************************)
(* Histories of forecasters with stored trees.  fit is the event of the     *)
(* last fit (hours: those of the training rows); its observation holds the  *)
(* stored trees by hour (sequence of 24, empty when none): nodes [id, t, p, v] (p, v scaled by 1000).         *)
(***************************************************************************)
EXTENDS Tree, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, fit, online
vars == <<tid, l, st, fit, online>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ fit = 0 /\ online = Traces[tid].online
F == T.ev[fit]
Prefits == ~T.online \/ T.prefit
Nd(g) == {[id |-> x[1], t |-> x[2] + 1, p |-> x[3], v |-> x[4]] : x \in Set(g.nodes)}
Ed(g) == {<<x[1], x[2]>> : x \in Set(g.edges)}
ShapeOk(g, nodes) ==
    /\ WellFormed(Nd(g), Ed(g), T.steps) /\ ChildrenSum(Nd(g), Ed(g), T.steps, 1000, 10)
    /\ (nodes # <<>> => \A t \in 1..T.steps : Cardinality(NodesAt(Nd(g), t)) = nodes[t])
\* the stored tree g shifted by the signal s (one value per step)
Shifted(g, h, s) ==
    /\ Len(h.nodes) = Len(g.nodes) /\ Ed(h) = Ed(g)
    /\ \A x \in Nd(g) : \E y \in Nd(h) : y.id = x.id /\ y.t = x.t /\ y.p = x.p /\ Near(y.v, x.v + s[x.t], T.tol)
FitClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF (o.stored # <<>>) # Prefits THEN "trees stored although not asked for, or missing"
    ELSE IF o.stored # <<>> /\ (Len(o.stored) # 24 \/ \E h \in 1..24 : IF h - 1 \in Set(E.hours) THEN ~ShapeOk(o.stored[h], T.nodes) ELSE o.stored[h].nodes # <<>>) THEN "a stored tree is malformed or has the wrong number of nodes"
    ELSE "ok"
PredClause ==
    LET o == E.obs
        refused == ~online /\ (E.nodes # <<>> \/ ~Prefits)
        nodes == IF E.nodes # <<>> THEN E.nodes ELSE T.nodes
        sig(r) == IF T.add THEN <<IF E.init # <<>> THEN E.init[r] ELSE E.pred[r][1]>> \o E.pred[r] ELSE E.pred[r]
    IN  IF refused THEN (IF o.ok THEN "accepted although it must be refused" ELSE IF o.kind # "AssertionError" THEN "refused in an unexpected way: " \o o.err ELSE "ok")
        ELSE IF ~o.ok THEN "raised: " \o o.err
        ELSE IF Len(o.trees) # Len(E.hours) THEN "wrong number of trees"
        ELSE IF o.mutated THEN "caller's data was modified"
        ELSE IF o.stored # F.obs.stored THEN "stored trees changed"
        ELSE IF online THEN (IF \E r \in 1..Len(E.hours) : ~ShapeOk(o.trees[r], nodes) THEN "a tree is malformed or has the wrong number of nodes"
                             ELSE IF T.add /\ \E r \in 1..Len(E.hours) : \E x \in NodesAt(Nd(o.trees[r]), 1) : ~Near(x.v, IF E.init # <<>> THEN E.init[r] ELSE 0, T.tol) THEN "root is not the initial observation" ELSE "ok")
        ELSE IF \E r \in 1..Len(E.hours) : ~Shifted(F.obs.stored[E.hours[r] + 1], o.trees[r], sig(r)) THEN "a tree is not the stored tree of its hour shifted by its forecast"
        ELSE "ok"
Clause == CASE E.op = "fit" -> FitClause
            [] E.op = "pred" -> PredClause
            [] OTHER -> IF E.obs.ok THEN "ok" ELSE "raised: " \o E.obs.err
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN /\ l' = l + 1 /\ st' = "run" /\ fit' = (IF E.op = "fit" THEN l ELSE fit)
                                 /\ online' = CASE E.op = "on" -> TRUE [] E.op = "off" -> FALSE [] OTHER -> online
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, fit, online>>
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, fit, online>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
