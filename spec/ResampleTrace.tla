---------------------------- MODULE ResampleTrace ----------------------------
(***************************************************************************)
(* Validates recorded bootstraps.  The samples are those the statistic was    *)
(* evaluated on (the last N of them); the summary must be the mean and the    *)
(* standard deviation of the statistic over exactly these.                    *)
(***************************************************************************)
EXTENDS Resample, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run"
S == 100
Dom(s) == 1..Len(s)
MulDiv(a, c, d) == IF a < 0 THEN -(((-a) \div d) * c + (((-a) % d) * c) \div d) ELSE (a \div d) * c + ((a % d) * c) \div d
Count(v) == Cardinality({p \in Dom(E.obs.samples) \X (1..Len(E.series)) : E.obs.samples[p[1]][p[2]] = v})
SummaryOf(v, u) ==
    LET o == E.obs IN
    IF ~Near(o.mean * u, MulDiv(Total(v), S, Len(v)), 2 * u) THEN "mean is not that of the statistic over the samples"
    ELSE IF ~Near((o.std * u) * (o.std * u), MulDiv(Spread2(v), S * S, Len(v) * Len(v)), 2 * u * (o.std * u) + 4 * u * u) THEN "standard deviation is not that of the statistic over the samples"
    ELSE "ok"
BootClause ==
    LET o == E.obs
        N == E.N
        n == Len(E.series)
        u == Unit(E.kind)
        v == TLCEval([i \in Dom(o.samples) |-> Stat(E.kind, o.samples[i])])
    IN  IF Len(o.samples) # N THEN "number of samples"
        ELSE IF \E i \in 1..N : ~DrawnFrom(o.samples[i], E.series) THEN "a sample is not one of the series"
        ELSE IF n >= 4 /\ 2 * Cardinality({i \in 1..N : Cardinality(Set(o.samples[i])) = n}) > N THEN "not drawn with replacement"
        ELSE IF E.distinct /\ \E x \in Set(E.series) : (Count(x) - N) * (Count(x) - N) > 49 * N THEN "values are not equally likely"
        ELSE SummaryOf(v, u)
SameClause == IF E.obs.a = E.obs.b THEN "ok" ELSE "summary depends on more than the samples and the statistic"
Clause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "series passed in was modified"
    ELSE CASE E.op = "boot" -> BootClause [] OTHER -> SameClause
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run"
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED l
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
