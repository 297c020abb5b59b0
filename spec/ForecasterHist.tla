--------------------------- MODULE ForecasterHist ---------------------------
(***************************************************************************)
(* Histories of a forecaster.  All that a forecaster may legitimately       *)
(* remember is its current parameters and the (parameters, data) pair of    *)
(* its last fit; a prediction is a function of that pair and the row asked. *)
(* TLC enumerates the histories; each is replayed on the real classes.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Data, Preds, Others, MaxLen

VARIABLES hist, params, fitted, done
vars == <<hist, params, fitted, done>>
None == [p |-> -1, d |-> "none"]
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)]

Init == hist = <<>> /\ params = 0 /\ fitted = None /\ done = FALSE
Room == ~done /\ Len(hist) < MaxLen
Log(op) == hist' = Append(hist, op)

SetParams == Room /\ Last # "set" /\ params' = 1 - params /\ Log("set") /\ UNCHANGED <<fitted, done>>
Fit(d) == Room /\ fitted' = [p |-> params, d |-> d] /\ Log("fit" \o d) /\ UNCHANGED <<params, done>>
\* what a prediction returns after the parameters changed without a new fit is left open
Predict(q) == Room /\ fitted # None /\ fitted.p = params /\ Log(q) /\ UNCHANGED <<params, fitted, done>>
\* copying or saving and loading the forecaster changes nothing
Other(o) == Room /\ Last \notin Others /\ hist # <<>> /\ Log(o) /\ UNCHANGED <<params, fitted, done>>
Stop == ~done /\ Last \in Preds /\ done' = TRUE /\ UNCHANGED <<hist, params, fitted>>
        /\ PrintT(<<"BEH", ToJson([h |-> hist])>>)

Next == SetParams \/ (\E d \in Data : Fit(d)) \/ (\E q \in Preds : Predict(q)) \/ (\E o \in Others : Other(o)) \/ Stop
Spec == Init /\ [][Next]_vars

Parity == LET n == Len(SelectSeq(hist, LAMBDA op : op = "set")) IN params = n % 2
FitOps == {"fit" \o d : d \in Data}
\* the state is a function of the last fit only, whatever was done before it
LastFit == LET I == {i \in 1..Len(hist) : hist[i] \in FitOps}
           IN  IF I = {} THEN fitted = None
               ELSE LET m == CHOOSE i \in I : \A j \in I : j <= i
                        n == Len(SelectSeq(SubSeq(hist, 1, m), LAMBDA op : op = "set"))
                    IN  "fit" \o fitted.d = hist[m] /\ fitted.p = n % 2
PredictPure == [][Last' \in Preds \cup Others => fitted' = fitted /\ params' = params]_vars
=============================================================================
