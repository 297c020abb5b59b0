------------------------------ MODULE HierTrace ------------------------------
(***************************************************************************)
(* Validates recorded uses of HierarchicalReconciliation on hierarchy T.h.   *)
(* Rows of series are sequences over all series 1..T.n; observed values and  *)
(* witnesses are scaled by 1000.                                            *)
(*                                                                         *)
(* The reconciled vector is the unique coherent one such that the correction *)
(* r = forecast - reconciled is                                              *)
(*   W C' lambda,  C = [I -A] (least squares "dummy": W = I; minT: W =        *)
(*   shrunk covariance of the training errors), or                           *)
(*   bayes: bottom correction Cb A' mu with (Cu + A Cb A') mu = forecast of   *)
(*   the aggregations - A forecast of the bottoms.                           *)
(* lambda, mu come with the trace as witnesses and are only checked.         *)
(***************************************************************************)
EXTENDS Hier, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run"
H == T.h
NS == T.n
Ks == [i \in 1..Len(H) |-> H[i].key]
KSet == Set(Ks)
BSet == (1..NS) \ KSet
LeavesOf == TLCEval([k \in KSet |-> Leaves(H, k)])
Div(x, d) == IF x >= 0 THEN (x + d \div 2) \div d ELSE -((d \div 2 - x) \div d)
SumSet(D, f(_)) == SumOver([d \in D |-> f(d)])
MaxAbs(f) == LET v == {Abs(f[x]) : x \in DOMAIN f} IN IF v = {} THEN 0 ELSE CHOOSE m \in v : \A x \in v : x <= m
Ok(v) == Abs(v) < 100000000
IsCoherent(row, tol) == \A k \in KSet : Near(row[k], SumSet(LeavesOf[k], LAMBDA b : row[b]), tol)
\* n^2 times the covariance of the columns of es
Cov(es) == TLCEval([i, j \in 1..NS |-> Len(es) * SumTo([t \in 1..Len(es) |-> es[t][i] * es[t][j]], Len(es))
                                       - SumTo([t \in 1..Len(es) |-> es[t][i]], Len(es)) * SumTo([t \in 1..Len(es) |-> es[t][j]], Len(es))])
\* 10 |D| n^2 times the shrunk covariance of the series in D
Shrunk(c, D) == TLCEval([i, j \in D |-> 9 * Cardinality(D) * c[i, j] + (IF i = j THEN SumSet(D, LAMBDA d : c[d, d]) ELSE 0)])
Scaled(m) == LET d == MaxAbs(m) \div 2000 + 1 IN TLCEval([x \in DOMAIN m |-> Div(m[x], d)])
\* directions in which a forecast may be corrected: V[i, u]
Directions(W) == TLCEval(Scaled([i \in 1..NS, u \in KSet |-> W[i, u] - SumSet(LeavesOf[u], LAMBDA b : W[i, b])]))
Identity == [i, j \in 1..NS |-> IF i = j THEN 1 ELSE 0]
Within(total, want, slack) == Abs(total - 1000 * want) <= 1000 * slack
Slack(r, wit) == 30 + (SumSet(DOMAIN wit, LAMBDA u : Abs(wit[u])) \div 1000) + MaxAbs(r) \div 100
GLS(V, yhat, rec, wit) ==
    LET r == TLCEval([i \in 1..NS |-> 1000 * yhat[i] - rec[i]])
        w == TLCEval([u \in KSet |-> wit[CHOOSE j \in 1..Len(Ks) : Ks[j] = u]])
    IN  \A i \in 1..NS : Within(SumSet(KSet, LAMBDA u : V[i, u] * w[u]), r[i], Slack(r, w))
\* the two covariances in a common scale
Pair(c) ==
    LET cb == Shrunk(c, BSet)
        nu == Cardinality(KSet)
        cu == IF nu = 1 THEN [i, j \in KSet |-> 10 * Cardinality(BSet) * c[i, j]] ELSE LET s == Shrunk(c, KSet) IN [i, j \in KSet |-> Cardinality(BSet) * s[i, j]]
        kb == [i, j \in BSet |-> (IF nu = 1 THEN 1 ELSE nu) * cb[i, j]]
        d == (IF MaxAbs(kb) > MaxAbs(cu) THEN MaxAbs(kb) ELSE MaxAbs(cu)) \div 2000 + 1
        b == TLCEval([x \in DOMAIN kb |-> Div(kb[x], d)])
        G == TLCEval([i \in BSet, u \in KSet |-> SumSet(LeavesOf[u], LAMBDA j : b[i, j])])                    \* Cb A'
    IN  [G |-> G, M |-> TLCEval([u, v \in KSet |-> Div(cu[u, v], d) + SumSet(LeavesOf[u], LAMBDA j : G[j, v])])]   \* Cu + A Cb A'
Bayes(p, yhat, rec, wit) ==
    LET w == TLCEval([u \in KSet |-> wit[CHOOSE j \in 1..Len(Ks) : Ks[j] = u]])
        d == TLCEval([b \in BSet |-> rec[b] - 1000 * yhat[b]])
        e == TLCEval([u \in KSet |-> 1000 * (yhat[u] - SumSet(LeavesOf[u], LAMBDA b : yhat[b]))])
    IN  /\ \A b \in BSet : Within(SumSet(KSet, LAMBDA u : p.G[b, u] * w[u]), d[b], Slack(d, w))
        /\ \A u \in KSet : Within(SumSet(KSet, LAMBDA v : p.M[u, v] * w[v]), e[u], Slack(e, w) + Slack(d, w))
RecClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "caller's data was modified"
    ELSE IF o.cols # E.cols THEN "reconciled columns are not those of the forecasts"
    ELSE IF ~o.index THEN "reconciled rows are not those of the forecasts"
    ELSE IF \E r \in 1..Len(o.rows) : ~(\A i \in 1..NS : Ok(o.rows[r][i])) THEN "reconciled forecast is not a number"
    ELSE IF \E r \in 1..Len(o.rows) : ~IsCoherent(o.rows[r], 20) THEN "reconciled forecast is not coherent"
    ELSE IF \E r \in 1..Len(o.rows) : IsCoherent(E.yhat[r], 0) /\ \E i \in 1..NS : ~Near(o.rows[r][i], 1000 * E.yhat[r][i], 20) THEN "coherent forecast was changed"
    ELSE IF E.method = "bayes"
         THEN LET p == TLCEval(Pair(Cov(E.errs))) IN IF \E r \in 1..Len(o.rows) : ~Bayes(p, E.yhat[r], o.rows[r], o.wit[r]) THEN "bayes: correction does not follow from the covariances of the training errors" ELSE "ok"
         ELSE LET V == TLCEval(Directions(IF E.method = "dummy" THEN Identity ELSE Shrunk(Cov(E.errs), 1..NS)))
              IN  IF \E r \in 1..Len(o.rows) : ~GLS(V, E.yhat[r], o.rows[r], o.wit[r]) THEN E.method \o ": correction is not the least squares one for the covariance of the training errors" ELSE "ok"
LevelClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF Len(o.levels) # NS \/ \E i \in 1..NS : o.levels[i] # Level(H, i) THEN "level of a series is not its distance from the root"
    ELSE IF \E j \in 1..Len(Ks) : Set(o.leaves[j]) # LeavesOf[Ks[j]] \/ Len(o.leaves[j]) # Cardinality(LeavesOf[Ks[j]]) THEN "bottom members of an aggregation are not those of the tree"
    ELSE "ok"
SameMat(a, b, tol) == Len(a) = Len(b) /\ \A r \in 1..Len(b) : Len(a[r]) = Len(b[r]) /\ \A i \in 1..Len(b[r]) : Near(a[r][i], b[r][i], tol)
\* whole use: o.van, o.rec [step][row][series]; o.single: forecasts of models trained on their own; o.fresh: reconciled step by step
\* o.scen, o.scenvan [sample][row] = values of all series and steps; o.errs, o.errsvan [training row]; hours
Flat(m, r) == [x \in 1..(Len(m) * NS) |-> m[((x - 1) \div NS) + 1][r][((x - 1) % NS) + 1]]
Bootstrap(sc, base, errs) ==
    \A s \in 1..Len(sc) : \A r \in 1..Len(E.hours) :
        \E t \in 1..Len(E.trhours) : E.trhours[t] = E.hours[r] /\ LET f == Flat(base, r) IN \A x \in 1..Len(f) : Near(sc[s][r][x], f[x] + errs[t][x], 20)
FullClause ==
    LET o == E.obs
        K == Len(E.steps)
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.mutated THEN "caller's data was modified"
        ELSE IF o.labels # "" THEN "labels: " \o o.labels
        ELSE IF \E k \in 1..K : ~SameMat(o.van[k], o.single[k], 5) THEN "base forecast is not that of the model of its series"
        ELSE IF \E k \in 1..K : \E r \in 1..Len(E.hours) : ~IsCoherent(o.rec[k][r], 20) THEN "reconciled forecast is not coherent"
        ELSE IF \E k \in 1..K : ~SameMat(o.rec[k], o.fresh[k], 20) THEN "step is not reconciled with the errors of its own"
        ELSE IF \E s \in 1..Len(o.scen), r \in 1..Len(E.hours), k \in 1..K : ~IsCoherent([i \in 1..NS |-> o.scen[s][r][(k - 1) * NS + i]], 20) THEN "scenario is not coherent"
        ELSE IF ~Bootstrap(o.scen, o.rec, o.errs) THEN "scenario is not the reconciled forecast plus the training errors of one time of the same hour"
        ELSE IF ~Bootstrap(o.scenvan, o.van, o.errsvan) THEN "base scenario is not the base forecast plus the training errors of one time of the same hour"
        ELSE IF \E r \in 1..Len(E.hours), x \in 1..(K * NS), j \in 1..Len(E.levels) :
                  ~Near(100 * o.quant[r][x][j], QuantileTimes(Ascending([s \in 1..Len(o.scen) |-> o.scen[s][r][x]]), E.levels[j], 100), 300) THEN "quantile is not that of the scenarios"
        ELSE IF ~SameMat(o.qvan, o.qsingle, 5) THEN "base quantile is not that of the model of its series"
        ELSE "ok"
\* scores by level of the hierarchy: the mean over the series of a level of the score of each series' own forecasts.
\* o.truth [step][row][series]; o.hat the same, for quantiles [step][row][series][j]; o.kpi [level + 1][step] (reliability: [j])
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
AtLevel == TLCEval([v \in 0..MaxOf({Level(H, i) : i \in 1..NS}) |-> {i \in 1..NS : Level(H, i) = v}])
KpiClause ==
    LET o == E.obs
        K == Len(E.steps)
        R == E.rows
        J == 1..Len(E.levels)
        Cells(v) == AtLevel[v] \X (1..R)
        err(k, c, j) == (IF E.kind = "mse" THEN o.hat[k][c[2]][c[1]] ELSE o.hat[k][c[2]][c[1]][j]) - o.truth[k][c[2]][c[1]]
        Tot(D, f(_)) == SumOver([d \in D |-> f(d)])
        top == Cardinality(DOMAIN AtLevel)
        MseOk(v, k) == LET m == Cardinality(Cells(v)) IN
            Abs(o.kpi[v + 1][k] * m - Tot(Cells(v), LAMBDA c : err(k, c, 1) * err(k, c, 1))) <= Tot(Cells(v), LAMBDA c : 2 * Abs(err(k, c, 1)) + 3)
        CrpsOk(v, k) == LET m == Cardinality(Cells(v)) * Len(E.levels) IN
            Abs(o.kpi[v + 1][k] * m - Tot(Cells(v) \X J, LAMBDA d : ((IF err(k, d[1], d[2]) > 0 THEN 100 ELSE 0) - E.levels[d[2]]) * err(k, d[1], d[2]))) <= 120 * m
        RelOk(v, k) == LET m == Cardinality(Cells(v)) IN
            \A j \in J : LET hi == Cardinality({c \in Cells(v) : err(k, c, j) > -2})  lo == Cardinality({c \in Cells(v) : err(k, c, j) > 1})
                         IN  o.kpi[v + 1][k][j] * m >= 1000 * lo - m /\ o.kpi[v + 1][k][j] * m <= 1000 * hi + m
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.mutated THEN "caller's data was modified"
        ELSE IF o.lv # [i \in 1..top |-> i - 1] THEN "scores are not those of the levels of the hierarchy"
        ELSE IF o.steps # E.steps THEN "scores are not those of the steps"
        ELSE IF \E v \in DOMAIN AtLevel, k \in 1..K :
                  ~(CASE E.kind = "mse" -> MseOk(v, k) [] E.kind = "crps" -> CrpsOk(v, k) [] OTHER -> RelOk(v, k)) THEN "score of a level is not the mean over its series: " \o E.kind
        ELSE "ok"
Clause == CASE E.op = "rec" -> RecClause [] E.op = "levels" -> LevelClause [] E.op = "kpi" -> KpiClause [] OTHER -> FullClause
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run"
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED l
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
