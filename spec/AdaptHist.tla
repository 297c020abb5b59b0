----------------------------- MODULE AdaptHist -----------------------------
(***************************************************************************)
(* Histories of an adaptive forecaster.  Training extends what it has seen  *)
(* for good; a prediction continues from what was seen in training, over    *)
(* the rows passed, and leaves nothing behind.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Frames, Ops, MaxLen, MaxFit
VARIABLES hist, seen, live, done
vars == <<hist, seen, live, done>>
Init == hist = <<>> /\ seen = <<>> /\ live = <<>> /\ done = FALSE
Room == ~done /\ Len(hist) < MaxLen
NFit == Len(SelectSeq(hist, LAMBDA o : o.op = "fit"))
Fit == Room /\ NFit < MaxFit /\ hist' = Append(hist, [op |-> "fit", x |-> 0]) /\ seen' = Append(seen, NFit + 1) /\ live' = seen' /\ UNCHANGED done
Predict(o, x) == Room /\ NFit > 0 /\ hist' = Append(hist, [op |-> o, x |-> x]) /\ live' = Append(seen, 10 + x) /\ UNCHANGED <<seen, done>>
Copy == Room /\ NFit > 0 /\ "copy" \in Ops /\ hist' = Append(hist, [op |-> "copy", x |-> 0]) /\ UNCHANGED <<seen, live, done>>
Stop == ~done /\ Len(hist) = MaxLen /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED <<hist, seen, live>>
Next == Fit \/ (\E o \in Ops \ {"copy"}, x \in Frames : Predict(o, x)) \/ Copy \/ Stop
Spec == Init /\ [][Next]_vars
\* what a forecast knows: the training frames in order and at most the one frame passed to it
Known == \A i \in 1..Len(live) : live[i] > 10 => i = Len(live)
Kept == Len(seen) = NFit /\ \A i \in 1..Len(seen) : seen[i] = i
=============================================================================
