---------------------------- MODULE CompactTrace -----------------------------
(***************************************************************************)
(* Validates recorded splits, piecewise applications and memory reductions.   *)
(* Tables are sequences of rows of cell numbers; labels are numbered by their  *)
(* place in the original.                                                     *)
(***************************************************************************)
EXTENDS Compact, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run"
Upto(n) == [i \in 1..n |-> i]
SizeOf(p) == IF E.axis = 0 THEN Len(p.rows) ELSE Len(p.cols)
\* pieces: labels of rows and columns (numbers), cells, types
PieceOk(p, i, sizes) ==
    LET rs == IF E.axis = 0 THEN Piece(Upto(E.R), sizes, i) ELSE Upto(E.R)
        cs == IF E.axis = 1 THEN Piece(Upto(E.C), sizes, i) ELSE Upto(E.C)
    IN  /\ p.rows = rs /\ p.cols = cs
        /\ p.types = [j \in 1..Len(cs) |-> E.types[cs[j]]]
        /\ p.cells = [a \in 1..Len(rs) |-> [b \in 1..Len(cs) |-> E.factor * (100 * rs[a] + cs[b])]]
SplitClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "split modified the table"
    ELSE LET sizes == TLCEval([i \in 1..Len(o.pieces) |-> SizeOf(o.pieces[i])]) IN
         IF Len(sizes) # E.k THEN "number of pieces"
         ELSE IF Sum(sizes) # (IF E.axis = 0 THEN E.R ELSE E.C) THEN "pieces do not add up to the table"
         ELSE IF ~IsSplit(sizes, IF E.axis = 0 THEN E.R ELSE E.C, E.k) THEN "sizes of the pieces differ by more than one"
         ELSE IF \E i \in 1..E.k : ~PieceOk(o.pieces[i], i, sizes) THEN "pieces are not consecutive parts of the table with their labels and types"
         ELSE "ok"
\* the result put together is the result on the whole table
ApplyClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "the table was modified"
    ELSE IF o.parts THEN        \* results left apart: consecutive pieces, whatever their sizes
        LET sizes == TLCEval([i \in 1..Len(o.pieces) |-> SizeOf(o.pieces[i])]) IN
        IF Sum(sizes) # (IF E.axis = 0 THEN E.R ELSE E.C) \/ \E i \in 1..Len(sizes) : ~PieceOk(o.pieces[i], i, sizes) THEN "results of the pieces are not those of consecutive parts" ELSE "ok"
    ELSE IF \E i \in 1..Len(o.pieces) : o.pieces[i].rows # Upto(E.R) \/ o.pieces[i].cols # Upto(E.C) THEN "labels of the result are not those of the table"
    ELSE IF \E i \in 1..Len(o.pieces) : o.pieces[i].cells # [a \in 1..E.R |-> [b \in 1..E.C |-> E.factor * i * (100 * a + b)]] THEN "result is not that on the whole table"
    ELSE "ok"
ReduceClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF ~o.labels THEN "labels or shape changed"
    ELSE IF \E c \in 1..Len(E.cols) : ~Admissible(E.cols[c].kind, E.cols[c].size, o.cols[c].kind, o.cols[c].size) THEN "type of a column became larger or of another kind"
    ELSE IF \E c \in 1..Len(E.cols) : \E r \in 1..Len(E.cols[c].v) : ~Kept(E.cols[c].kind, E.cols[c].v[r], o.cols[c].v[r]) THEN "values of a column changed beyond its type"
    ELSE "ok"
Clause == CASE E.op = "split" -> SplitClause [] E.op = "apply" -> ApplyClause [] OTHER -> ReduceClause
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run"
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED l
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
