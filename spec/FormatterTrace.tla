--------------------------- MODULE FormatterTrace ---------------------------
(***************************************************************************)
(* Validates recorded histories of the real formatter.  Each trace is one   *)
(* formatter (tr.trs, tr.tgts: its configuration) and the sequence of the   *)
(* operations run on it with everything observed.  The verdict of each      *)
(* event is total: either no clause fails and the state advances, or the    *)
(* first failing clause is reported by name and the trace ends.             *)
(***************************************************************************)
EXTENDS Formatter, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, st, metadt
vars == <<tid, l, st, metadt>>

T == Traces[tid]
E == T.ev[l]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ metadt = 0

\* ---------------------------------------------------------------- clauses of a transform
Pick(vals, rows) == [k \in 1..Len(vals) |-> [i \in 1..Len(rows) |-> vals[k][rows[i]]]]

\* for the reader of a report: the first column that differs, expected and found
Show(what, c, want, got) == PrintT(<<"INFO", what, c, "expected", want, "found", got>>)

TransformClause ==
    LET o == E.obs
        fr == E.frame
        xc == AllCols(T.trs)
        yc == AllCols(T.tgts)
    IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "caller's frame modified"
    ELSE LET xv == Values(T.trs, fr)
             yv == IF E.ret THEN Values(T.tgts, fr) ELSE <<>>
             rows == Asc(Complete(xv \o yv, fr.n))
         IN
         IF o.xcols # xc THEN "generated feature columns differ"
         ELSE IF E.ret /\ o.ycols # yc THEN "generated target columns differ"
         ELSE IF o.xrows # rows THEN "feature rows are not the complete rows"
         ELSE IF E.ret /\ o.yrows # rows THEN "target rows differ from feature rows"
         ELSE IF \E k \in 1..Len(xc) : o.x[k] # [i \in 1..Len(rows) |-> xv[k][rows[i]]] THEN "feature value differs from its window"
         ELSE IF E.ret /\ \E k \in 1..Len(yc) : o.y[k] # [i \in 1..Len(rows) |-> yv[k][rows[i]]] THEN "target value differs from its window"
         ELSE IF o.orig # (IF E.augment THEN [k \in 1..Len(E.origs) |-> [i \in 1..Len(rows) |-> fr.cols[E.origs[k]][rows[i]]]] ELSE <<>>) THEN "original columns not carried as asked"
         ELSE IF o.extra # <<>> THEN "unexpected column " \o o.extra[1]
         ELSE "ok"

\* a transformer on its own: no row is dropped, missing values stay visible
TransformerClause ==
    LET o == E.obs
        tr == T.trs[E.which]
    IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "caller's frame modified"
    ELSE IF o.xcols # Cols(tr) THEN "generated feature columns differ"
    ELSE IF o.xrows # [i \in 1..E.frame.n |-> i] THEN "rows of the frame not kept"
    ELSE IF \E k \in 1..Len(Cols(tr)) : o.x[k] # Column(tr, E.frame, Cols(tr)[k]) /\ Show("transformer", Cols(tr)[k], Column(tr, E.frame, Cols(tr)[k]), o.x[k]) THEN "feature value differs from its window"
    ELSE "ok"

MetaClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF \E i \in 1..Len(T.trs) : Len(o.meta[i]) # Len(Meta(T.trs[i], E.dt)) THEN "metadata does not list the generated columns"
    ELSE IF \E i \in 1..Len(T.tgts) : Len(o.tmeta[i]) # Len(Meta(T.tgts[i], E.dt)) THEN "target metadata does not list the generated columns"
    ELSE LET Bad(got, want) == IF \E k \in 1..Len(want) : got[k].name # want[k].name THEN "metadata names another signal"
                               ELSE IF \E k \in 1..Len(want) : <<got[k].cname, got[k].cfun, got[k].clag, got[k].b0, got[k].b1>> # <<want[k].name, want[k].fun, want[k].clag, want[k].b0, want[k].b1>> THEN "metadata index out of order"
                               ELSE IF \E k \in 1..Len(want) : got[k].fun # want[k].fun THEN "metadata names another function"
                               ELSE IF \E k \in 1..Len(want) : got[k].lag # want[k].lag THEN "metadata states another lag"
                               ELSE IF \E k \in 1..Len(want) : got[k].start # want[k].start THEN "metadata start of window wrong"
                               ELSE IF \E k \in 1..Len(want) : got[k].end # want[k].end THEN "metadata end of window wrong"
                               ELSE "ok"
             all == [i \in 1..Len(T.trs) |-> Bad(o.meta[i], Meta(T.trs[i], E.dt))] \o [i \in 1..Len(T.tgts) |-> Bad(o.tmeta[i], Meta(T.tgts[i], E.dt))]
         IN  IF \E i \in 1..Len(all) : all[i] # "ok" THEN all[CHOOSE i \in 1..Len(all) : all[i] # "ok"] ELSE "ok"

LimsClause ==
    LET o == E.obs
        ms == AllMeta(T.trs, E.dt) \o (IF E.target THEN AllMeta(T.tgts, E.dt) ELSE <<>>)
        names == {ms[i].name : i \in 1..Len(ms)}
        lims(nm) == LET I == {i \in 1..Len(ms) : ms[i].name \in nm} IN <<SetMin({ms[i].start : i \in I}), SetMax({ms[i].end : i \in I})>>
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF E.extremes THEN (IF o.lims # [all |-> lims(names)] THEN "time limits differ" ELSE "ok")
        ELSE IF o.lims # [nm \in names |-> lims({nm})] THEN "time limits differ" ELSE "ok"

FoldClause ==
    LET o == E.obs
        db == DeadBand(T.trs, E.dt)
        m == E.nk * E.mult
        S == 1..E.n
        q == FoldQ(E.nk, m)
        FoldBad(f) ==
            LET fold == o.folds[f]
                tr == {fold.tr[i] : i \in 1..Len(fold.tr)}
                te == {fold.te[i] : i \in 1..Len(fold.te)}
                a == FoldStart1(E.n, E.nk, m, f)
                b == a + FoldWindow(E.n, E.nk, m)
                ext == E.exact[f]
                pos(s) == q * (s - 1)
            IN  IF \E s \in S : pos(s) > a /\ pos(s) < b /\ s \notin te THEN "sample of the window missing in the test set"
                ELSE IF ext /\ \E s \in S : (pos(s) = a \/ pos(s) = b) /\ s \notin te THEN "edge sample missing in the test set"
                ELSE IF \E s \in te : pos(s) < a \/ pos(s) > b THEN "test sample outside the window"
                ELSE IF \E s \in tr : pos(s) > a - q * db /\ pos(s) < b + q * db THEN "training sample within the look-back"
                ELSE IF ext /\ \E s \in tr : pos(s) = a - q * db \/ pos(s) = b + q * db THEN "training sample touches the look-back"
                ELSE IF \E s \in S : (pos(s) < a - q * db \/ pos(s) > b + q * db) /\ s \notin tr THEN "usable training sample dropped"
                ELSE IF tr \cap te # {} THEN "training and test sets intersect"
                ELSE "ok"
    IN
    IF Refused(E.n, E.nk, db) THEN (IF o.ok THEN "folds yielded although the look-back exceeds the window" ELSE "ok")
    ELSE IF ~o.ok THEN "raised: " \o o.err
    ELSE IF Len(o.folds) # m THEN "number of folds"
    ELSE IF \E f \in 1..m : FoldBad(f) # "ok" THEN FoldBad(CHOOSE f \in 1..m : FoldBad(f) # "ok")
    ELSE IF UNION {{o.folds[f].te[i] : i \in 1..Len(o.folds[f].te)} : f \in 1..m} # S THEN "test sets do not cover all samples"
    ELSE "ok"

PruneClause ==
    LET o == E.obs
        sel == Selected(T.trs, T.tgts, E.dt, E.rule)
        xc == AllCols(T.trs)
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.cols # [i \in 1..Len(sel) |-> xc[sel[i]]] THEN "selected features differ from the rule"
        ELSE IF o.metafeats # E.metafeats THEN "kept metadata features differ"
        ELSE IF ~o.same THEN "rows or values changed by pruning"
        ELSE "ok"

Clause ==
    CASE E.op = "transform" -> TransformClause
      [] E.op = "transformer" -> TransformerClause
      [] E.op = "meta" -> MetaClause
      [] E.op = "lims" -> LimsClause
      [] E.op = "folds" -> FoldClause
      [] E.op = "prune" -> PruneClause
      \* operations whose own result is not constrained here: they are the history around the others
      [] OTHER -> IF E.obs.ok THEN "ok" ELSE "raised: " \o E.obs.err

Consume ==
    /\ st = "run" /\ l <= Len(T.ev)
    /\ LET c == Clause IN
         IF c = "ok"
         THEN /\ l' = l + 1
              /\ st' = "run"
              /\ metadt' = IF E.op \in {"transform", "simulate"} THEN E.dt ELSE metadt
         ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, metadt>>
    /\ UNCHANGED tid

Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, metadt>>

Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
