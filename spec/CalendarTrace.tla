---------------------------- MODULE CalendarTrace ----------------------------
(* Histories of calendar-feature transforms on one formatter; zone is the sticky decision about the UTC offset. *)
EXTENDS Calendar, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, zone
vars == <<tid, l, st, zone>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ zone = "undecided"

Set(s) == {s[i] : i \in 1..Len(s)}
Decided == IF zone # "undecided" THEN zone ELSE IF E.zoned THEN "zoned" ELSE "naive"
Clause ==
    LET o == E.obs
        n == Len(E.rows)
        loc == TLCEval([i \in 1..n |-> Local(E.zone, E.rows[i])])
        off == TLCEval([i \in 1..n |-> IF E.zoned THEN Offset(E.zone, E.rows[i]) ELSE 0])
        hols == Set(E.hols)
        at(f(_)) == [i \in 1..n |-> f(loc[i])]
    IN
    IF E.op # "calendar" THEN (IF o.ok THEN "ok" ELSE "raised: " \o o.err)
    ELSE IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "caller's frame modified"
    ELSE IF o.rows # E.rows THEN "rows changed"
    ELSE IF E.time /\ o.hour # at(Hour) THEN "hour differs from the local time stamp"
    ELSE IF E.time /\ o.dow # at(Dow) THEN "day of week differs from the local time stamp"
    ELSE IF E.time /\ o.mod # at(MinuteOfDay) THEN "minute of day differs from the local time stamp"
    ELSE IF E.time /\ o.hasutc # (Decided = "zoned") THEN "presence of the UTC offset is not the first frame's decision"
    ELSE IF E.time /\ o.hasutc /\ o.utc # off THEN "UTC offset differs"
    ELSE IF E.holidays /\ o.hol # [i \in 1..n |-> HolidayClass(loc[i] \div 1440, hols)] THEN "holiday class differs"
    ELSE IF ~E.time /\ (o.hour # <<>> \/ o.hasutc) THEN "calendar features not asked for"
    ELSE "ok"
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run" /\ zone' = IF E.op = "calendar" /\ E.time THEN Decided ELSE zone
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED <<l, zone>>
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l, zone>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
