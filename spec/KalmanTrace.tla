---------------------------- MODULE KalmanTrace ----------------------------
(***************************************************************************)
(* Validates recorded calls of the real filter.  "step" events have integer   *)
(* inputs of one or two components; the results (times 1000) are those of     *)
(* Kalman.tla.  "fuse" events hold what the filter made of a set of           *)
(* independent measurements of a larger state, all at once, one by one and    *)
(* in another order, with the prior; "run" events are chains of steps.        *)
(***************************************************************************)
EXTENDS Kalman, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
E == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run"
S == 1000
Dom(s) == 1..Len(s)
\* (a * S) / d to the nearest integer, without leaving 32 bits
Scaled(a, d) == LET u == IF a < 0 THEN -a ELSE a
                    q == (u \div d) * S + (((u % d) * S + d \div 2) \div d)
                IN  IF a < 0 THEN -q ELSE q
Is(got, A, d, tol) == Len(got) = Rows(A) /\ \A i \in 1..Rows(A) : Len(got[i]) = Cols(A) /\ \A j \in 1..Cols(A) : Near(got[i][j], Scaled(A[i][j], d), tol)
IsVec(got, A, d, tol) == Len(got) = Rows(A) /\ \A i \in 1..Rows(A) : Near(got[i], Scaled(A[i][1], d), tol)
Alike(A, B, tol) == \A i \in Dom(A) : \A j \in Dom(A[i]) : Near(A[i][j], B[i][j], tol)
AlikeVec(a, b, tol) == \A i \in Dom(a) : Near(a[i], b[i], tol)
Quad(A, z) == SumTo([i \in Dom(z) |-> z[i] * SumTo([j \in Dom(z) |-> A[i][j] * z[j]], Len(z))], Len(z))

StepClause ==
    LET o == E.obs
        b == Belief(E.x, E.P)
        p == Predicted(b, E.F, E.Q)
        u == TLCEval(Lowest(Updated(b, E.y, E.H, E.R)))
        k == TLCEval(Lowest(Updated(p, E.y, E.H, E.R)))
    IN  IF ~IsVec(o.px, p.xm, 1, 2) THEN "predicted mean"
        ELSE IF ~Is(o.pP, p.Pm, 1, 2) THEN "predicted covariance"
        ELSE IF E.upd /\ ~IsVec(o.ux, u.xm, u.xd, 3) THEN "updated mean"
        ELSE IF E.upd /\ ~Is(o.uP, u.Pm, u.Pd, 3) THEN "updated covariance"
        ELSE IF ~IsVec(o.kx, k.xm, k.xd, 3) THEN "filtered mean"
        ELSE IF ~Is(o.kP, k.Pm, k.Pd, 3) THEN "filtered covariance"
        ELSE "ok"
FuseClause ==
    LET o == E.obs
        n == Len(o.x)
    IN  IF ~AlikeVec(o.x, o.xseq, E.tol) \/ ~AlikeVec(o.x, o.xperm, E.tol) THEN "mean depends on how measurements are taken in"
        ELSE IF ~Alike(o.P, o.Pseq, E.tol) \/ ~Alike(o.P, o.Pperm, E.tol) THEN "covariance depends on how measurements are taken in"
        ELSE IF \E i, j \in 1..n : ~Near(o.P[i][j], o.P[j][i], 2) THEN "covariance is not symmetric"
        ELSE IF \E z \in Set(E.probes) : Quad(o.P, z) < -E.tol * n * n THEN "covariance is not positive"
        ELSE IF \E z \in Set(E.probes) : Quad(o.P, z) > Quad(E.P0, z) + E.tol * n * n THEN "a measurement made the state more uncertain"
        ELSE "ok"
RunClause ==
    LET o == E.obs IN
    IF ~AlikeVec(o.x, o.xbatch, E.tol) \/ ~Alike(o.P, o.Pbatch, E.tol) THEN "not the least squares estimate of the observations"
    ELSE "ok"
Clause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "array passed in was modified"
    ELSE CASE E.op = "step" -> StepClause
           [] E.op = "fuse" -> FuseClause
           [] OTHER -> RunClause
Consume == /\ st = "run" /\ l <= Len(T.ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run"
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED l
Finish == st = "run" /\ l > Len(T.ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
