------------------------------ MODULE TreeHist ------------------------------
(***************************************************************************)
(* A forecaster with scenario trees: trees are stored at fit when the       *)
(* forecaster is built offline (or asked to pre-fit); the mode may be       *)
(* switched at any time and decides alone how trees are predicted.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Ops, MaxLen
VARIABLES ctor, hist, online, stored, expect, done
vars == <<ctor, hist, online, stored, expect, done>>
Prefits(c) == ~c.online \/ c.prefit
Init == /\ ctor \in [online : BOOLEAN, prefit : BOOLEAN] /\ hist = <<>> /\ online = ctor.online
        /\ stored = 0 /\ expect = <<>> /\ done = FALSE
\* outcome of asking for trees: new ones, the stored ones of the n-th fit shifted, or a refusal
Outcome(nodes) == IF online THEN "new" ELSE IF nodes \/ stored = 0 THEN "refused" ELSE "shifted"
Do(op) ==
    /\ ~done /\ Len(hist) < MaxLen
    /\ hist = <<>> => op = "fit"
    /\ op \in {"on", "off"} => online = (op = "off")
    /\ op = "fit" => IF hist = <<>> THEN TRUE ELSE hist[Len(hist)] # "fit"
    /\ hist' = Append(hist, op)
    /\ online' = CASE op = "on" -> TRUE [] op = "off" -> FALSE [] OTHER -> online
    /\ stored' = IF op = "fit" THEN (IF Prefits(ctor) THEN Len(hist) + 1 ELSE stored) ELSE stored
    /\ expect' = Append(expect, CASE op \in {"predA", "predB"} -> Outcome(FALSE) [] op = "predN" -> Outcome(TRUE) [] OTHER -> "")
    /\ UNCHANGED <<ctor, done>>
Stop == ~done /\ hist # <<>> /\ hist[Len(hist)] \in {"predA", "predB", "predN"} /\ done' = TRUE /\ UNCHANGED <<ctor, hist, online, stored, expect>>
        /\ PrintT(<<"BEH", ToJson([ctor |-> ctor, h |-> hist, x |-> expect])>>)
Next == (\E op \in Ops : Do(op)) \/ Stop
Spec == Init /\ [][Next]_vars
\* predictions and switches never touch what is stored; stored trees exist iff they were asked for
StoredKept == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')] # "fit") => stored' = stored]_vars
StoredIff == hist # <<>> => (stored > 0) = Prefits(ctor)
\* nothing but the mode and the existence of stored trees decides the outcome
ModeOnly == \A i \in 1..Len(hist) : expect[i] = "shifted" => Prefits(ctor)
=============================================================================
