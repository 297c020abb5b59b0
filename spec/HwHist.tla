------------------------------- MODULE HwHist -------------------------------
(***************************************************************************)
(* Histories of a Holt-Winters forecaster: observations arrive in batches,  *)
(* the state may be saved and restored.  The two seasons are arrays that    *)
(* the implementation shifts by one place at each observation; here they    *)
(* hold the time at which each term was computed.  Whatever the batching,   *)
(* the term used for step h is the latest one of the right phase.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS P1, P2, Horizon, Sizes, Ops, MaxLen
VARIABLES hist, t, s1, s2, saved, done
vars == <<hist, t, s1, s2, saved, done>>
Start(p) == [i \in 1..p |-> i - p]                \* computed at the times -p+1..0
Shift(s, n, at) == [i \in 1..Len(s) |-> IF i + n <= Len(s) THEN s[i + n] ELSE at + i + n - Len(s)]
RECURSIVE Fold(_, _, _)
Fold(s, n, at) == IF n = 0 THEN s ELSE Fold(Append(Tail(s), at + 1), n - 1, at + 1)
NoSave == [t |-> -1, s1 |-> <<>>, s2 |-> <<>>]
Init == hist = <<>> /\ t = 0 /\ s1 = Start(P1) /\ s2 = Start(P2) /\ saved = NoSave /\ done = FALSE
Room == ~done /\ Len(hist) < MaxLen
Feed(k) == /\ Room /\ hist' = Append(hist, [op |-> "feed", k |-> k]) /\ t' = t + k
           /\ s1' = Fold(s1, k, t) /\ s2' = Fold(s2, k, t) /\ UNCHANGED <<saved, done>>
Save == Room /\ "save" \in Ops /\ saved.t # t /\ saved' = [t |-> t, s1 |-> s1, s2 |-> s2] /\ hist' = Append(hist, [op |-> "save", k |-> 0]) /\ UNCHANGED <<t, s1, s2, done>>
Restore == /\ Room /\ saved # NoSave /\ saved.t # t /\ t' = saved.t /\ s1' = saved.s1 /\ s2' = saved.s2
           /\ hist' = Append(hist, [op |-> "restore", k |-> 0]) /\ UNCHANGED <<saved, done>>
Other(o) == Room /\ hist' = Append(hist, [op |-> o, k |-> 0]) /\ UNCHANGED <<t, s1, s2, saved, done>>
Stop == ~done /\ Len(hist) = MaxLen /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED <<hist, t, s1, s2, saved>>
Next == (\E k \in Sizes : Feed(k)) \/ Save \/ Restore \/ (\E o \in Ops \ {"save"} : Other(o)) \/ Stop
Spec == Init /\ [][Next]_vars
Phase(s, h) == s[((h - 1) % Len(s)) + 1]
\* the term used for step h was computed at the latest time of the same phase
Right(s) == \A h \in 1..Horizon : LET u == Phase(s, h) IN u <= t /\ u > t - Len(s) /\ (t + h - u) % Len(s) = 0
SeasonsRight == Right(s1) /\ Right(s2)
\* one batch of k observations is k batches of one
Batching == \A k \in Sizes : Fold(s1, k, t) = Shift(s1, k, t) /\ Fold(s2, k, t) = Shift(s2, k, t)
=============================================================================
