----------------------------- MODULE TrainerHist -----------------------------
(* Histories of cross validations and studies on one model object.  What the   *)
(* object holds (held) is what its owner gave it: evaluations leave it alone.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Ops, MaxLen
VARIABLES hist, owner, held, evaluated, done
vars == <<hist, owner, held, evaluated, done>>
Init == hist = <<>> /\ owner = 0 /\ held = 0 /\ evaluated = {} /\ done = FALSE
Room == ~done /\ Len(hist) < MaxLen
Replace == Room /\ owner' = owner + 1 /\ held' = owner + 1 /\ hist' = Append(hist, "replace") /\ UNCHANGED <<evaluated, done>>
Eval(o) == Room /\ evaluated' = evaluated \cup {<<Len(hist) + 1, held>>} /\ hist' = Append(hist, o) /\ UNCHANGED <<owner, held, done>>
Stop == ~done /\ Len(hist) = MaxLen /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED <<hist, owner, held, evaluated>>
Next == Replace \/ (\E o \in Ops : Eval(o)) \/ Stop
Spec == Init /\ [][Next]_vars
\* every evaluation started from what the owner last gave
Fresh == \A e \in evaluated : \A i \in 1..Len(hist) : e[1] = i => e[2] = Len(SelectSeq(SubSeq(hist, 1, i), LAMBDA h : h = "replace"))
=============================================================================
