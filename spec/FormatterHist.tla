---------------------------- MODULE FormatterHist ----------------------------
(***************************************************************************)
(* Histories of operations on one formatter.  The state is what the         *)
(* formatter may legitimately remember: the sampling time the metadata of    *)
(* features and of targets was computed for (0: none yet) and whether the UTC offset is a feature        *)
(* (decided by the first frame that got calendar features).  Everything else *)
(* a later transform returns must be a function of configuration and frame;  *)
(* every behaviour is printed and replayed on the real formatter.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Ops, MaxLen, DtFixed

Dt(op) == CASE op \in {"transform_dt2", "simulate_dt2", "other_dt2"} -> 2 [] OTHER -> 1
NeedsMeta(op) == op \in {"folds", "lims"}
NeedsBoth(op) == op = "prune"
SetsMeta(op) == op \in {"transform", "transform_dt2", "infer", "short", "permuted", "parallel", "simulate_dt2", "zoned", "naive"}
SetsTarget(op) == SetsMeta(op) /\ op # "infer"
Calendar(op) == op \in {"zoned", "naive"}

VARIABLES hist, metadt, tmetadt, zone, done
vars == <<hist, metadt, tmetadt, zone, done>>

Init == hist = <<>> /\ metadt = 0 /\ tmetadt = 0 /\ zone = "undecided" /\ done = FALSE

Do(op) ==
    /\ ~done /\ Len(hist) < MaxLen
    /\ NeedsMeta(op) => metadt # 0
    /\ NeedsBoth(op) => metadt # 0 /\ metadt = tmetadt
    /\ ~(DtFixed /\ Dt(op) # 1)
    /\ hist' = Append(hist, op)
    /\ metadt' = IF SetsMeta(op) THEN Dt(op) ELSE metadt
    /\ tmetadt' = IF SetsTarget(op) THEN Dt(op) ELSE tmetadt
    /\ zone' = IF Calendar(op) /\ zone = "undecided" THEN op ELSE zone
    /\ UNCHANGED done

Stop == ~done /\ hist # <<>> /\ done' = TRUE /\ UNCHANGED <<hist, metadt, tmetadt, zone>>
        /\ PrintT(<<"BEH", ToJson([h |-> hist, metadt |-> metadt, zone |-> zone])>>)

Next == (\E op \in Ops : Do(op)) \/ Stop
Spec == Init /\ [][Next]_vars

TypeOK == metadt \in {0, 1, 2} /\ tmetadt \in {0, 1, 2} /\ zone \in {"undecided", "zoned", "naive"}
\* the decision about time zones is taken once and by the first calendar operation of the history
ZoneSticky == zone # "undecided" => \E i \in 1..Len(hist) : hist[i] = zone /\ \A j \in 1..(i - 1) : ~Calendar(hist[j])
ZoneStays == [][zone # "undecided" => zone' = zone]_vars
\* metadata always describe the last operation that computed them
MetaLast == metadt = 0 \/ \E i \in 1..Len(hist) : SetsMeta(hist[i]) /\ Dt(hist[i]) = metadt /\ \A j \in (i + 1)..Len(hist) : ~SetsMeta(hist[j])
=============================================================================
