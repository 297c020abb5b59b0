--------------------------- MODULE SubsampleTrace ---------------------------
(* Rows used by the post-fit stage of fits with a row cap; memo maps (data, seed) to the rows chosen before. *)
EXTENDS Num, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, memo
vars == <<tid, l, st, memo>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ memo = <<>>

NVal == IF T.num = -1 THEN T.n ELSE (T.n * T.num) \div T.den
First == T.n - NVal + 1
Seed(e) == IF e.srs # -1 THEN e.srs ELSE IF e.rs # -1 THEN e.rs ELSE 0
Capped == T.cap # -1 /\ NVal > T.cap
Size == IF Capped THEN T.cap ELSE NVal
Key(e) == <<T.cap, Seed(e)>>
Known(e) == {i \in 1..Len(memo) : memo[i][1] = Key(e)}

FitClause ==
    LET o == E.obs
        r == o.pred
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF Len(r) # Size THEN "number of rows used is not min(cap, rows)"
        ELSE IF Cardinality(Set(r)) # Len(r) THEN "a row is used twice"
        ELSE IF \E i \in 1..Len(r) : r[i] < First \/ r[i] > T.n THEN "a row outside the validation set is used"
        ELSE IF Capped /\ \E i \in 1..(Len(r) - 1) : T.keys[r[i]] > T.keys[r[i + 1]] THEN "rows are not in time order"
        ELSE IF ~Capped /\ \E i \in 1..Len(r) : r[i] # First + i - 1 THEN "all rows should be used as they are"
        ELSE IF o.errs # r THEN "errors passed on belong to other rows (features and targets misaligned)"
        ELSE IF o.errx # r THEN "features passed on with the errors belong to other rows"
        ELSE IF o.times # [i \in 1..Len(r) |-> T.keys[r[i]]] THEN "time stamps of the errors differ"
        ELSE IF o.dist # Ascending(r) THEN "error distribution is not that of the rows used"
        ELSE IF o.align # [i \in 1..Len(r) |-> 0] THEN "features and targets misaligned in the error distribution"
        ELSE IF \E i \in Known(E) : memo[i][2] # r THEN "other rows for the same seed"
        ELSE "ok"
\* counts over many seeds against the hours' shares: within six standard deviations of a proportional draw
SharesClause ==
    LET o == E.obs
        hs == {T.hours[i] : i \in First..T.n}
        Mean(h) == LET c == Cardinality({i \in First..T.n : T.hours[i] = h}) IN (E.reps * T.cap * c) \div NVal
        Var(h) == LET c == Cardinality({i \in First..T.n : T.hours[i] = h}) IN (((E.reps * T.cap * c) \div NVal) * (NVal - c)) \div NVal + 1
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF \E h \in hs : LET d == Max2(0, Abs(o.count[h + 1] - Mean(h)) - 1) IN d * d > 36 * Var(h) THEN "rows drawn do not follow the hours' shares"
        ELSE "ok"
Clause == CASE E.op = "fit" -> FitClause
            [] E.op = "shares" -> SharesClause
            [] E.op = "refuse" -> IF E.obs.ok THEN "accepted: " \o E.what ELSE "ok"
            [] E.op = "accept" -> IF E.obs.ok THEN "ok" ELSE "refused: " \o E.what \o " " \o E.obs.err
            [] E.op = "train" -> IF ~E.obs.ok THEN "raised: " \o E.obs.err ELSE IF E.obs.capped # E.obs.free THEN "the cap changes the point model" ELSE "ok"
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run" /\ memo' = IF E.op = "fit" THEN Append(memo, <<Key(E), E.obs.pred>>) ELSE memo
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, memo>>
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, memo>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
