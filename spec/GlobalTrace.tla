----------------------------- MODULE GlobalTrace -----------------------------
(***************************************************************************)
(* Global form: the independent series are transformed one after the other   *)
(* with the shared signals and stacked, each row labelled with its series.   *)
(* E.frames[i] is the frame of series i (its "target", its private and the   *)
(* shared signals).  ord remembers, per transformer and signal, the last     *)
(* correlation order learned in training form.                               *)
(***************************************************************************)
EXTENDS Formatter, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, ord
vars == <<tid, l, st, ord>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ ord = <<>>

\* positions of the columns of one signal within all columns of one transformer list, as groups
Groups == FlattenSeq([i \in 1..Len(T.trs) |-> [j \in 1..Len(T.trs[i].names) |-> <<i, j>>]])
Offset(i, j) == SumTo([k \in 1..Len(T.trs) |-> Len(Cols(T.trs[k]))], i - 1) + (j - 1) * ColsPerName(T.trs[i])
GroupCols(i, j) == [k \in 1..ColsPerName(T.trs[i]) |-> Offset(i, j) + k]

\* n * covariance and n * variance over rows, integers
RECURSIVE Dot(_, _, _)
Dot(a, b, k) == IF k = 0 THEN 0 ELSE Dot(a, b, k - 1) + a[k] * b[k]
Cov(a, b) == LET n == Len(a) IN n * Dot(a, b, n) - SumTo(a, n) * SumTo(b, n)
\* a correlates more with y than b does
More(a, b, y) == LET ca == Cov(a, y) cb == Cov(b, y) IN ca * Abs(ca) * Cov(b, b) > cb * Abs(cb) * Cov(a, a)

\* per series: rows, feature values, target values (rows applied)
Series(i) ==
    LET fr == E.frames[i]
        xv == Values(T.trs, fr)
        yv == IF E.ret THEN Values(T.tgts, fr) ELSE <<>>
        rows == Asc(Complete(xv \o yv, fr.n))
        pick(v) == TLCEval([k \in 1..Len(v) |-> [r \in 1..Len(rows) |-> v[k][rows[r]]]])
        x == pick(xv)
        y == pick(yv)
        order == IF ~E.corr THEN [g \in 1..Len(Groups) |-> GroupCols(Groups[g][1], Groups[g][2])]
                 ELSE IF ~E.ret THEN ord
                 ELSE TLCEval([g \in 1..Len(Groups) |-> SortSeq(GroupCols(Groups[g][1], Groups[g][2]), LAMBDA a, b : More(x[a], x[b], y[1]))])
        perm == FlattenSeq(order)
    IN  [rows |-> rows, x |-> [k \in 1..Len(perm) |-> x[perm[k]]], y |-> y, order |-> order,
         orig |-> [k \in 1..Len(E.origs) |-> [r \in 1..Len(rows) |-> fr.cols[E.origs[k]][rows[r]]]]]

Clause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "caller's frame modified"
    ELSE LET S == TLCEval([i \in 1..Len(E.frames) |-> Series(i)])
             n == Len(S)
             cat(f(_)) == FlattenSeq([i \in 1..n |-> f(S[i])])
             rows == cat(LAMBDA s : s.rows)
         IN
         IF o.xcols # AllCols(T.trs) THEN "generated feature columns differ"
         ELSE IF E.ret /\ o.ycols # AllCols(T.tgts) THEN "generated target columns differ"
         ELSE IF o.xrows # rows THEN "rows are not the stacked rows of the series"
         ELSE IF E.ret /\ o.yrows # rows THEN "target rows differ from feature rows"
         ELSE IF E.augment /\ o.names # FlattenSeq([i \in 1..n |-> [r \in 1..Len(S[i].rows) |-> E.series[i]]]) THEN "rows labelled with another series"
         ELSE IF \E k \in 1..Len(o.x) : o.x[k] # FlattenSeq([i \in 1..n |-> S[i].x[k]]) THEN "feature value differs from the series' own transform"
         ELSE IF E.ret /\ \E k \in 1..Len(o.y) : o.y[k] # FlattenSeq([i \in 1..n |-> S[i].y[k]]) THEN "target value differs from the series' own transform"
         ELSE IF E.augment /\ \E k \in 1..Len(E.origs) : o.orig[k] # FlattenSeq([i \in 1..n |-> S[i].orig[k]]) THEN "original columns differ"
         ELSE "ok"

Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN /\ l' = l + 1 /\ st' = "run"
                                 /\ ord' = IF E.ret /\ E.corr THEN Series(Len(E.frames)).order ELSE ord
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, ord>>
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, ord>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
