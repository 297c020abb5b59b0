------------------------------ MODULE EncTrace ------------------------------
(* Codes and forecasts of categorical features; fit is the index of the last fit event. *)
EXTENDS Num, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, fit
vars == <<tid, l, st, fit>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ fit = 0
F == T.ev[fit]
C == T.ncols
\* rows of a fit with the categories of row i
Known(c) == {F.cats[i][c] : i \in 1..Len(F.cats)}
Unseen == UNION {{E.cats[i][c] : i \in 1..Len(E.cats)} \ Known(c) : c \in 1..C}
Injective(e) == \A i, j \in 1..Len(e.cats), c \in 1..C : (e.cats[i][c] = e.cats[j][c]) <=> (e.obs.codes[i][c] = e.obs.codes[j][c])
SameCodes == \A i \in 1..Len(E.cats), c \in 1..C : LET j == CHOOSE j \in 1..Len(F.cats) : F.cats[j][c] = E.cats[i][c] IN E.obs.codes[i][c] = F.obs.codes[j][c]
Value(i) == F.y[CHOOSE j \in 1..Len(F.cats) : F.cats[j] = E.cats[i]]
Clause ==
    LET o == E.obs IN
    CASE E.op = "fit" ->
           IF ~o.ok THEN "raised: " \o o.err
           ELSE IF o.mutated THEN "caller's frame lost its categories"
           ELSE IF T.codes /\ ~Injective(E) THEN "different categories share a code or equal ones differ"
           ELSE IF T.codes /\ o.num # E.num THEN "numeric column changed"
           ELSE "ok"
      [] E.op = "pred" ->
           IF o.mutated THEN "caller's frame lost its categories"
           ELSE IF Unseen # {} THEN (IF o.ok THEN "unseen categories accepted" ELSE IF o.kind # "ValueError" \/ \E u \in Unseen : u \notin Set(o.named) THEN "error does not name the unseen categories" ELSE "ok")
           ELSE IF ~o.ok THEN "raised: " \o o.err
           ELSE IF T.codes /\ ~SameCodes THEN "codes differ from those at fit"
           ELSE IF T.codes /\ o.num # E.num THEN "numeric column changed"
           ELSE IF ~T.codes /\ \E i \in 1..Len(E.cats) : ~Near(o.v[i], Value(i), T.tol) THEN "forecast is not the one learned for the category"
           ELSE "ok"
      [] OTHER -> IF o.ok THEN "ok" ELSE "raised: " \o o.err
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run" /\ fit' = IF E.op = "fit" THEN l ELSE fit
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, fit>>
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, fit>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
