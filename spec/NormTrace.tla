------------------------------ MODULE NormTrace ------------------------------
(***************************************************************************)
(* Target normalisation.  A normaliser is a one-column transformer with a    *)
(* tag; the expression kinds are                                             *)
(*   "sub"   df[t] - df['m']            inverse  df[t] + df['m']              *)
(*   "half"  (df[t] - df['m']) / 2      inverse  df[t]*2 + df['m']            *)
(*   "ratio" (df[t] - df['m']) / df['s']  inverse  df[t]*df['s'] + df['m']    *)
(*   "none"  normalisers without an expression: nothing is normalised         *)
(* All values are projected to integers at the scale L = 120.                *)
(***************************************************************************)
EXTENDS Formatter, Json, IOUtils

L == 120
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run"

NormNames == {T.nrms[i].tr.names[1] : i \in 1..Len(T.nrms)}
\* a normaliser's value at a row as a fraction
Num(i, fr) == Column(T.nrms[i].tr, fr, Cols(T.nrms[i].tr)[1])
Den(i, fr) == IF Cols(T.nrms[i].tr)[1].fun = "mean" THEN Steps(T.nrms[i].tr, fr.dt) ELSE 1

Normalised(v, m, md, s) ==
    CASE T.kind = "sub" -> (L * (v * md - m)) \div md
      [] T.kind = "half" -> (L * (v * md - m)) \div (2 * md)
      [] T.kind = "ratio" -> (L * (v * md - m)) \div (md * s)
      [] OTHER -> L * v
\* un-normalising a normalised value shifted by k
Back(v, k, s) ==
    CASE T.kind = "sub" -> L * (v + k)
      [] T.kind = "half" -> L * (v + 2 * k)
      [] T.kind = "ratio" -> L * (v + k * s)
      [] OTHER -> L * (v + k)

Expected(vals, cols, rows, fr, num, sv) ==
    TLCEval([k \in 1..Len(cols) |-> [i \in 1..Len(rows) |->
        IF cols[k].name \in NormNames THEN Normalised(vals[k][rows[i]], num[rows[i]], Den(1, fr), sv[rows[i]]) ELSE L * vals[k][rows[i]]]])

SCol(fr) == IF Len(T.nrms) > 1 THEN Num(2, fr) ELSE [t \in 1..fr.n |-> 1]

TransformClause ==
    LET o == E.obs
        fr == E.frame
        xc == AllCols(T.trs)
        yc == AllCols(T.tgts)
    IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "caller's frame modified"
    ELSE LET xv == Values(T.trs, fr)
             yv == IF E.ret THEN Values(T.tgts, fr) ELSE <<>>
             nv == TLCEval([i \in 1..Len(T.nrms) |-> Num(i, fr)])
             rows == Asc(Complete(xv \o yv \o nv, fr.n))
             ex == Expected(xv, xc, rows, fr, nv[1], SCol(fr))
             ey == Expected(yv, yc, rows, fr, nv[1], SCol(fr))
             bad(got, want) == {k \in 1..Len(want) : got[k] # want[k]}
         IN
         IF o.xcols # xc THEN "generated feature columns differ"
         ELSE IF E.ret /\ o.ycols # yc THEN "generated target columns differ"
         ELSE IF o.xrows # rows THEN "feature rows are not the complete rows"
         ELSE IF E.ret /\ o.yrows # rows THEN "target rows differ from feature rows"
         ELSE IF \E k \in bad(o.x, ex) : xc[k].name \notin NormNames THEN "a feature not derived from a normalised signal was changed"
         ELSE IF bad(o.x, ex) # {} THEN "normalised feature value differs"
         ELSE IF E.ret /\ \E k \in bad(o.y, ey) : yc[k].name \notin NormNames THEN "a target not derived from a normalised signal was changed"
         ELSE IF E.ret /\ bad(o.y, ey) # {} THEN "normalised target value differs"
         ELSE IF o.norms # [i \in 1..Len(nv) |-> [j \in 1..Len(rows) |-> (L * nv[i][rows[j]]) \div Den(i, fr)]] THEN "normaliser column differs"
         ELSE IF E.augment /\ o.orig # [k \in 1..Len(E.origs) |-> [i \in 1..Len(rows) |-> L * fr.cols[E.origs[k]][rows[i]]]] THEN "original columns not carried unchanged"
         ELSE "ok"

\* denormalising the targets (shift 0) or quantile forecasts (shift k per level) gives back the raw values
DenormClause ==
    LET o == E.obs
        fr == E.frame
        yc == AllCols(T.tgts)
    IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "denormalising modified the caller's frame"
    ELSE LET yv == Values(T.tgts, fr)
             s == SCol(fr)
             want(k, j) == [i \in 1..Len(E.rows) |-> LET t == E.rows[i] IN
                              IF yc[k].name \in NormNames THEN Back(yv[k][t], E.shifts[j], s[t]) ELSE L * (yv[k][t] + E.shifts[j])]
         IN
         IF o.ycols # yc THEN "columns differ after denormalising"
         ELSE IF o.yrows # E.rows THEN "rows differ after denormalising"
         ELSE IF \E k \in 1..Len(yc) : \E j \in 1..Len(E.shifts) : o.y[j][k] # want(k, j) THEN "denormalised values are not the original ones"
         ELSE "ok"

Clause == IF E.op = "transform" THEN TransformClause ELSE DenormClause
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN IF c = "ok" THEN l' = l + 1 /\ st' = "run" ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED l
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
