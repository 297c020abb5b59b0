----------------------------- MODULE SmoothHist -----------------------------
(***************************************************************************)
(* Histories of a smoothing forecaster: a training replaces what was        *)
(* learned; predictions of frames which continue the training, repeat it or *)
(* lie elsewhere leave nothing behind; copies know the same.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Frames, MaxLen, MaxFit
VARIABLES hist, known, fits, done
vars == <<hist, known, fits, done>>
Init == hist = <<>> /\ known = 0 /\ fits = 0 /\ done = FALSE
Room == ~done /\ Len(hist) < MaxLen
Rec(o, x) == hist' = Append(hist, [op |-> o, x |-> x])
Fit == Room /\ fits < MaxFit /\ Rec("fit", fits + 1) /\ known' = fits + 1 /\ fits' = fits + 1 /\ UNCHANGED done
Predict == Room /\ known > 0 /\ (\E x \in Frames : Rec("pred", x)) /\ UNCHANGED <<known, fits, done>>
Quant == Room /\ known > 0 /\ (\E x \in Frames : Rec("quant", x)) /\ UNCHANGED <<known, fits, done>>
Copy == Room /\ known > 0 /\ Rec("copy", 0) /\ UNCHANGED <<known, fits, done>>
Stop == ~done /\ Len(hist) = MaxLen /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED <<hist, known, fits>>
Next == Fit \/ Predict \/ Quant \/ Copy \/ Stop
Spec == Init /\ [][Next]_vars
\* what is known is the last training
Last == LET F == {i \in 1..Len(hist) : hist[i].op = "fit"} IN known = IF F = {} THEN 0 ELSE hist[CHOOSE i \in F : \A j \in F : j <= i].x
=============================================================================
