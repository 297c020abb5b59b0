------------------------------ MODULE ScenTrace ------------------------------
(***************************************************************************)
(* Sampled scenarios.  "interp": the ranks come from a known dependence, so *)
(* every scenario value is determined: the linear inter/extrapolation of    *)
(* its row's and step's quantiles (knots times 1000, values times 1000).    *)
(* "dep", "mid": the scenarios are the ranks (times 10000) drawn from the   *)
(* dependence learned from the errors of each hour.                         *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run"

InterpClause ==
    LET o == E.obs
        n == Len(E.q)
        K == Len(E.q[1])
        add == IF E.addnode THEN 1 ELSE 0
        Val(i, k, s) ==
            LET r == E.ranks[i][k][s]
                j == Segment(E.knots, r)
                d == E.knots[j + 1] - E.knots[j]
            IN  Near(o.s[i][k + add][s] * d, 1000 * LinearTimes(E.knots, E.q[i][k], r, j), 2 * d)
                \/ (PrintT(<<"INFO", "row", i, "step", k, "scenario", s, "rank", r, "got", o.s[i][k + add][s], "times", d, "want", 1000 * LinearTimes(E.knots, E.q[i][k], r, j)>>) /\ FALSE)
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.shape # <<n, K + add, E.nscen>> THEN "not one value per row, step and scenario"
        ELSE IF E.addnode /\ \E i \in 1..n, s \in 1..E.nscen : ~Near(o.s[i][1][s], 1000 * E.init[i], 2) THEN "first step is not the row's initial observation"
        ELSE IF \E i \in 1..n, k \in 1..K, s \in 1..E.nscen : ~Val(i, k, s) THEN "scenario is not the forecast quantile at its rank"
        ELSE "ok"

\* rows of the errors of an hour
ErrRows(h) == SelectIdx(Len(T.errhours), LAMBDA i : T.errhours[i] = h)
\* the ranks of every step are uniform: each quarter of [0, 1] has its share of the N scenarios, up to six standard deviations
Quarter(o, N, i, k, c) == Cardinality({s \in 1..N : o.s[i][k][s] > 2500 * (c - 1) /\ o.s[i][k][s] <= 2500 * c})
Uniform(o, N, n, K) == \A i \in 1..n, k \in 1..K, c \in 1..4 : LET d == Abs(4 * Quarter(o, N, i, k, c) - N) IN d * d <= 16 * 36 * ((3 * N) \div 16 + 1)
\* sign of a perfect monotone dependence between steps a and b within an hour
Sign(h, a, b) == LET R == ErrRows(h) IN
    IF \A i \in 1..Len(R), j \in 1..Len(R) : (T.errs[R[i]][a] - T.errs[R[j]][a]) * (T.errs[R[i]][b] - T.errs[R[j]][b]) >= 0 THEN 1 ELSE -1

DepClause ==
    LET o == E.obs
        n == Len(E.hours)
        K == Len(T.errs[1])
        sg == TLCEval([h \in {E.hours[i] : i \in 1..n} |-> [k \in 2..K |-> Sign(h, 1, k)]])
        Follows(i, k, s) == LET u == o.s[i][1][s] v == o.s[i][k][s] IN IF sg[E.hours[i]][k] = 1 THEN Near(u, v, 300) ELSE Near(u + v, 10000, 300)
        N == E.nscen
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.shape # <<n, K, N>> THEN "not one value per row, step and scenario"
        ELSE IF \E i \in 1..n, k \in 2..K, s \in 1..N : ~Follows(i, k, s) THEN "ranks do not follow the dependence of the row's hour"
        ELSE IF N >= 100 /\ ~Uniform(o, N, n, K) THEN "ranks of a step are not uniform"
        ELSE "ok"

\* 1000 * (1/2 + asin(r)/pi) at r = 0, 0.1, .. 1: probability that two normal variables with correlation r have the same sign
Same == <<500, 532, 564, 597, 631, 667, 705, 747, 795, 856, 1000>>
SameSign(r) == IF r >= 0 THEN Same[r + 1] ELSE 1000 - Same[1 - r]
\* ten times the correlation of two balanced columns with values -1 and 1 in an hour
Corr10(h, a, b) == LET R == ErrRows(h) IN (10 * SumTo([i \in 1..Len(R) |-> T.errs[R[i]][a] * T.errs[R[i]][b]], Len(R))) \div Len(R)
MidClause ==
    LET o == E.obs
        n == Len(E.hours)
        K == Len(T.errs[1])
        N == E.nscen
        count(i, a, b) == Cardinality({s \in 1..N : (o.s[i][a][s] > 5000) = (o.s[i][b][s] > 5000)})
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.shape # <<n, K, N>> THEN "not one value per row, step and scenario"
        ELSE IF ~Uniform(o, N, n, K) THEN "ranks of a step are not uniform"
        ELSE IF \E i \in 1..n, a \in 1..K, b \in 1..K : a < b /\ LET d == Max2(0, Abs(1000 * count(i, a, b) - N * SameSign(Corr10(E.hours[i], a, b))) - E.slack * N) \div 1000
                                                    IN d * d > 36 * (N \div 4) THEN "strength of the dependence differs from that of the row's hour"
        ELSE "ok"
ReproClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF Len(o.a) # Len(o.b) THEN "shape changes between draws"
    ELSE IF \E i \in 1..Len(o.a), j \in 1..Len(o.a[1]) : ~Near(o.a[i][j], o.b[i][j], 1) THEN "a fixed random state gives other scenarios"
    ELSE "ok"
Clause == CASE E.op = "interp" -> InterpClause
            [] E.op = "dep" -> DepClause
            [] E.op = "mid" -> MidClause
            [] E.op = "repro" -> ReproClause
            [] OTHER -> IF E.obs.ok THEN "ok" ELSE "raised: " \o E.obs.err
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run"
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED l
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
