----------------------------- MODULE NeuralHist -----------------------------
(***************************************************************************)
(* Histories of a neural forecaster.  It remembers its parameters and the   *)
(* (parameters, data) pair of its last fit; a saved file remembers both as   *)
(* of the moment of saving, a clone keeps the parameters only.  Forecasting, *)
(* optimising controls and copying change nothing.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Data, Preds, MaxLen
VARIABLES hist, params, fitted, file, done
vars == <<hist, params, fitted, file, done>>
None == [p |-> -1, d |-> "none"]
NoFile == [p |-> -1, f |-> None]
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)]
Init == hist = <<>> /\ params = 0 /\ fitted = None /\ file = NoFile /\ done = FALSE
Room == ~done /\ Len(hist) < MaxLen
Log(op) == hist' = Append(hist, op)
SetParams == Room /\ Last # "set" /\ params' = 1 - params /\ Log("set") /\ UNCHANGED <<fitted, file, done>>
Fit(d) == Room /\ fitted' = [p |-> params, d |-> d] /\ Log("fit" \o d) /\ UNCHANGED <<params, file, done>>
Ready == fitted # None /\ fitted.p = params
Predict(q) == Room /\ Ready /\ Last # q /\ Log(q) /\ UNCHANGED <<params, fitted, file, done>>
Copy == Room /\ hist # <<>> /\ Last # "copy" /\ Log("copy") /\ UNCHANGED <<params, fitted, file, done>>
Clone == Room /\ hist # <<>> /\ Last # "clone" /\ fitted' = None /\ Log("clone") /\ UNCHANGED <<params, file, done>>
Save == Room /\ Ready /\ file' = [p |-> params, f |-> fitted] /\ file' # file /\ Log("save") /\ UNCHANGED <<params, fitted, done>>
Load == Room /\ file # NoFile /\ Last # "load" /\ params' = file.p /\ fitted' = file.f /\ Log("load") /\ UNCHANGED <<file, done>>
Stop == ~done /\ Last \in Preds /\ done' = TRUE /\ UNCHANGED <<hist, params, fitted, file>> /\ PrintT(<<"BEH", ToJson([h |-> hist])>>)
Next == SetParams \/ (\E d \in Data : Fit(d)) \/ (\E q \in Preds : Predict(q)) \/ Copy \/ Clone \/ Save \/ Load \/ Stop
Spec == Init /\ [][Next]_vars

FitOps == {"fit" \o d : d \in Data}
\* what the forecaster is after a history, from the history alone
RECURSIVE Replay(_)
Replay(h) ==
    IF h = <<>> THEN [p |-> 0, f |-> None, file |-> NoFile]
    ELSE LET r == Replay(SubSeq(h, 1, Len(h) - 1))
             o == h[Len(h)]
         IN  CASE o = "set" -> [r EXCEPT !.p = 1 - @]
               [] o \in FitOps -> [r EXCEPT !.f = [p |-> r.p, d |-> CHOOSE d \in Data : o = "fit" \o d]]
               [] o = "clone" -> [r EXCEPT !.f = None]
               [] o = "save" -> [r EXCEPT !.file = [p |-> r.p, f |-> r.f]]
               [] o = "load" -> [r EXCEPT !.p = r.file.p, !.f = r.file.f]
               [] OTHER -> r
StateIsHistory == LET r == Replay(hist) IN r.p = params /\ r.f = fitted /\ r.file = file
SavedIsUsable == file # NoFile => file.f # None /\ file.f.p = file.p
PredictPure == [][Last' \in Preds \cup {"copy"} => fitted' = fitted /\ params' = params /\ file' = file]_vars
=============================================================================
