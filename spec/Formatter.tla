------------------------------ MODULE Formatter ------------------------------
(***************************************************************************)
(* The formatter: a configuration (transformers, target transformers) and  *)
(* the operations a user runs on it.  Its only state between operations is  *)
(* the configuration, the sampling time of the metadata last computed (0    *)
(* while there is none) and the sticky decision about time zones.           *)
(***************************************************************************)
EXTENDS Windows

\* ---- transform ----------------------------------------------------------
\* columns of values, transformer by transformer
Values(trs, frame) == FlattenSeq([i \in 1..Len(trs) |-> LET cs == Cols(trs[i]) IN [k \in 1..Len(cs) |-> Column(trs[i], frame, cs[k])]])

\* rows kept, given the columns of values
Complete(vals, n) == {t \in 1..n : \A k \in 1..Len(vals) : vals[k][t] # NA}

Asc(S) == SetToSortSeq(S, LAMBDA a, b: a < b)

\* ---- folds --------------------------------------------------------------
\* dead band: largest distance of the start of a feature window from the prediction instant, in steps
DeadBand(trs, dt) == SetMax({Abs(AllMeta(trs, dt)[i].start) : i \in 1..Len(AllMeta(trs, dt))})

\* fold f (1-based) of m = nk*mult over n samples at unit spacing. Times are multiplied by q = (nk-1)*(m-1) (m-1 := 1 when m = 1)
FoldQ(nk, m) == (nk - 1) * (IF m > 1 THEN m - 1 ELSE 1)
FoldWindow(n, nk, m) == (n - 1) * (IF m > 1 THEN m - 1 ELSE 1)             \* q * T/(nk-1)
FoldStart(n, nk, m, f) == (f - 1) * ((n - 1) * (nk - 1) - (n - 1))          \* q * (f-1) (T - T/(nk-1))/(m-1)
FoldStart1(n, nk, m, f) == IF m > 1 THEN FoldStart(n, nk, m, f) ELSE 0
Refused(n, nk, db) == db * (nk - 1) > n - 1

InTest(n, nk, m, f, s)  == LET q == FoldQ(nk, m) a == FoldStart1(n, nk, m, f) b == a + FoldWindow(n, nk, m) p == q * (s - 1) IN p >= a /\ p <= b
InTrain(n, nk, m, f, s, db) == LET q == FoldQ(nk, m) a == FoldStart1(n, nk, m, f) b == a + FoldWindow(n, nk, m) p == q * (s - 1) IN p < a - q * db \/ p > b + q * db
OnTestEdge(n, nk, m, f, s) == LET q == FoldQ(nk, m) a == FoldStart1(n, nk, m, f) b == a + FoldWindow(n, nk, m) p == q * (s - 1) IN p = a \/ p = b
OnTrainEdge(n, nk, m, f, s, db) == LET q == FoldQ(nk, m) a == FoldStart1(n, nk, m, f) b == a + FoldWindow(n, nk, m) p == q * (s - 1) IN p = a - q * db \/ p = b + q * db

\* ---- pruning ------------------------------------------------------------
\* m: metadata record of a feature, tm: of the target; all times in minutes
Keeps(m, tm, dt, rule) ==
    LET ts == tm.start * dt  te == tm.end * dt  fs == m.start * dt  fe == m.end * dt
        byRule == CASE rule.method = "periodic" -> ((ts - fs) % rule.period <= rule.tol) \/ ((te - fe) % rule.period <= rule.tol)
                    [] rule.method = "up_to" -> fe <= te
                    [] OTHER -> TRUE
        byLag == rule.lastlags > 0 /\ m.lag >= 0 /\ m.lag < rule.lastlags
        bySec == rule.lastmin > 0 /\ fe <= rule.lastmin /\ fe <= te
    IN  byRule \/ byLag \/ bySec

Selected(trs, tgts, dt, rule) ==
    LET ms == AllMeta(trs, dt)
        tm == AllMeta(tgts, dt)[rule.target]
    IN  SelectSeq([i \in 1..Len(ms) |-> i], LAMBDA i : Keeps(ms[i], tm, dt, rule))
=============================================================================
