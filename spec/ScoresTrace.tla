----------------------------- MODULE ScoresTrace -----------------------------
(***************************************************************************)
(* Validates recorded scores.  T: targets t, forecasts x, quantiles q        *)
(* [row][col][level], levels in percent, mask.  Events:                      *)
(*   score:  a table [group][other] (for quantile metrics other = level major,*)
(*           then column or row); grp given, or given by a numeric column v   *)
(*           to be cut in nq quantile bins                                    *)
(*   scorer: one number, the average of the score over the horizon and rows   *)
(***************************************************************************)
EXTENDS Scores, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run"
NA == -1000000000
Mask == IF E.masked THEN T.mask ELSE T.full
Grp == IF E.cut THEN (IF Distinct(E.v) >= E.nq THEN QuantileGroups(E.v, E.nq) ELSE [i \in 1..Len(E.v) |-> Cardinality({y \in Set(E.v) : y < E.v[i]}) + 1]) ELSE E.grp
L == Len(E.levels)
\* scaled sum of the terms of entries D; for quantile metrics of level a
Total(D, a, med) ==
    CASE E.metric = "rmse" -> SumD(D, LAMBDA e : 1000 * SquareTerm(T.x, T.t, e))
      [] E.metric = "mape" -> SumD(D, LAMBDA e : PercTerm(T.x, T.t, e, E.scale))
      [] E.metric \in {"nmae", "nmae0"} -> SumD(D, LAMBDA e : NormTerm(T.x, T.t, Mask, med, e, E.scale))
      [] E.metric = "qs" -> SumD(D, LAMBDA e : 100 * PinballTerm(T.q, T.t, a, E.levels[a], e))
      [] E.metric \in {"rel", "gap"} -> SumD(D, LAMBDA e : 10000 * CoverTerm(T.q, T.t, a, e))
      [] OTHER -> 0
\* observed average o (times n) against the total
Fits(o, n, want, k) == o < 1000000000 /\ o > NA /\ Near(o * n, want, 2 * n * k + Abs(want) \div 60000)
Shift(a) == IF E.metric = "gap" THEN 100 * E.levels[a] ELSE 0
Cell(o, D, a, med) ==
    LET n == Cardinality(D) IN
    IF n = 0 THEN o = NA
    ELSE IF E.metric = "crps" THEN Fits(o, n * L, SumTo([b \in 1..L |-> SumD(D, LAMBDA e : 100 * PinballTerm(T.q, T.t, b, E.levels[b], e))], L), 1)
    ELSE Fits(o, n, Total(D, a, med) - n * Shift(a), 1)
Quantile == E.metric \in {"qs", "rel", "gap"}
ScoreClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated # "" THEN "modified what it was given: " \o o.mutated
    ELSE IF o.labels # "" THEN "labels: " \o o.labels
    ELSE LET g == TLCEval(Grp)
             M == Members(g)
             O == Cardinality(Others(E.axis, Mask))
             med == IF E.metric = "nmae" THEN TLCEval(Median120(T.t, Mask)) ELSE 0
         IN  IF {o.groups[i] : i \in 1..Len(o.groups)} # M \/ Len(o.groups) # Cardinality(M) THEN "groups of the score are not those of the grouping"
             ELSE IF \E i \in 1..Len(o.groups) : E.cut /\ Set(o.members[i]) # {r \in 1..Len(g) : g[r] = o.groups[i]} THEN "label of a group does not cover its entries"
             ELSE IF \E i \in 1..Len(o.groups) : Len(o.vals[i]) # O * (IF Quantile THEN L ELSE 1) THEN "size of the score"
             ELSE IF \E i \in 1..Len(o.groups), k \in 1..O :
                        LET D == TLCEval(Entries(E.axis, g, Mask, o.groups[i], k)) IN
                        IF Quantile THEN \E a \in 1..L : ~Cell(o.vals[i][(a - 1) * O + k], D, a, med) ELSE ~Cell(o.vals[i][k], D, 1, med)
                  THEN E.metric \o " is not the average of its definition over the entries of the group" ELSE "ok"
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ScorerClause ==
    LET o == E.obs
        R == Len(T.t)
        C == Len(T.t[1])
        D == (1..R) \X (1..C)
        med == IF E.metric = "nmae" THEN TLCEval(Median120(T.t, Mask)) ELSE 0
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.mutated # "" THEN "modified what it was given: " \o o.mutated
        ELSE IF o.calls # E.rowsasked THEN "scorer asked the model for other rows"
        ELSE IF CASE E.metric = "rmse" -> Fits(o.v, R, SumTo([r \in 1..R |-> Root((SumD({<<r, c>> : c \in 1..C}, LAMBDA e : SquareTerm(T.x, T.t, e)) * 1000000) \div C, 0, 40000)], R), 1)
                  [] E.metric = "crps" -> Fits(o.v, R * C * L, SumTo([a \in 1..L |-> SumD(D, LAMBDA e : 100 * PinballTerm(T.q, T.t, a, E.levels[a], e))], L), 1)
                  [] E.metric = "rel" -> Fits(o.v, R * C * L, SumTo([a \in 1..L |-> SumD(D, LAMBDA e : 10000 * CoverTerm(T.q, T.t, a, e))], L), 1)
                  [] OTHER -> Fits(o.v, R * C, Total(D, 1, med), 1)
             THEN "ok" ELSE "scorer is not the average score of the estimator's forecast"
Clause == IF E.op = "score" THEN ScoreClause ELSE ScorerClause
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run"
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED l
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
