------------------------------- MODULE EncHist -------------------------------
(***************************************************************************)
(* Histories of a forecaster with a categorical feature.  The state is the  *)
(* set of categories of the last training set; a prediction on other        *)
(* categories is refused and changes nothing.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Cats, MaxLen
VARIABLES hist, known, done
vars == <<hist, known, done>>
Sets == SUBSET Cats \ {{}}
Init == hist = <<>> /\ known = {} /\ done = FALSE
Room == ~done /\ Len(hist) < MaxLen
Fit(S) == Room /\ known' = S /\ hist' = Append(hist, [op |-> "fit", cats |-> S, refused |-> FALSE]) /\ UNCHANGED done
Pred(S) == Room /\ known # {} /\ hist' = Append(hist, [op |-> "pred", cats |-> S, refused |-> ~(S \subseteq known)]) /\ UNCHANGED <<known, done>>
Stop == ~done /\ hist # <<>> /\ hist[Len(hist)].op = "pred" /\ done' = TRUE /\ UNCHANGED <<hist, known>> /\ PrintT(<<"BEH", ToJson([h |-> hist])>>)
Next == (\E S \in Sets : Fit(S) \/ Pred(S)) \/ Stop
Spec == Init /\ [][Next]_vars
\* a refused prediction leaves the state as it was; the known categories are those of the last fit
LastFit == LET I == {i \in 1..Len(hist) : hist[i].op = "fit"} IN
           IF I = {} THEN known = {} ELSE known = hist[CHOOSE i \in I : \A j \in I : j <= i].cats
=============================================================================
