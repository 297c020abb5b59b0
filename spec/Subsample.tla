------------------------------ MODULE Subsample ------------------------------
(***************************************************************************)
(* The proportional draw of rows for the post-fit stage: shares of the cap  *)
(* drawn per hour, capped by what each hour has, the deficit given one row  *)
(* at a time to the hour with most rows to spare.  Checked for all small    *)
(* row counts and all draws: the result has exactly the cap's size.         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS NHours, MaxCount
VARIABLES counts, cap, alloc, phase
vars == <<counts, cap, alloc, phase>>
H == 1..NHours
RECURSIVE Tot(_, _)
Tot(f, k) == IF k = 0 THEN 0 ELSE f[k] + Tot(f, k - 1)
Total(f) == Tot(f, NHours)
Init == /\ counts \in [H -> 1..MaxCount]
        /\ cap \in 1..(Total(counts) - 1)
        /\ cap >= NHours
        /\ alloc \in [H -> 0..cap] /\ Total(alloc) = cap
        /\ phase = "drawn"
Min(a, b) == IF a < b THEN a ELSE b
Cut == phase = "drawn" /\ alloc' = [h \in H |-> Min(alloc[h], counts[h])] /\ phase' = "fill" /\ UNCHANGED <<counts, cap>>
Spare(h) == counts[h] - alloc[h]
Fill == /\ phase = "fill" /\ Total(alloc) < cap
        /\ LET b == CHOOSE h \in H : \A g \in H : Spare(g) < Spare(h) \/ (Spare(g) = Spare(h) /\ h <= g)
           IN  alloc' = [alloc EXCEPT ![b] = @ + 1]
        /\ UNCHANGED <<counts, cap, phase>>
Done == phase = "fill" /\ Total(alloc) = cap /\ phase' = "done" /\ UNCHANGED <<counts, cap, alloc>>
Next == Cut \/ Fill \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NeverOver == phase # "drawn" => Total(alloc) <= cap /\ \A h \in H : alloc[h] <= counts[h]
Exact == phase = "done" => Total(alloc) = cap
Ends == <>(phase = "done")
=============================================================================
