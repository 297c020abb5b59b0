------------------------------ MODULE TrainerMC ------------------------------
(***************************************************************************)
(* Design model of a study: trials one after the other, each with one fresh   *)
(* copy of the model per fold; the folds of a trial are evaluated in any      *)
(* order and may overlap in time.  Proposed parameters may be conditional     *)
(* (absent).  The history of every fit and score is kept.                     *)
(***************************************************************************)
EXTENDS Trainer
CONSTANTS Rows, Values, MaxTrials, NFolds
VARIABLES orig, shared, folds, mode, trial, given, todo, copies, log, tuning
vars == <<orig, shared, folds, mode, trial, given, todo, copies, log, tuning>>
Absent == [a |-> NA, b |-> NA]
Proposals == {[a |-> x, b |-> y] : x \in Values, y \in Values \cup {NA}}
FoldSets == {[tr |-> t, te |-> Rows \ t] : t \in (SUBSET Rows) \ {{}, Rows}}
Init == /\ orig \in [a : Values, b : Values] /\ shared = orig
        /\ folds \in [1..NFolds -> FoldSets] /\ mode \in {"full", "random"}
        /\ trial = 0 /\ given = Absent /\ todo = {} /\ copies = [i \in 1..NFolds |-> "none"] /\ log = {} /\ tuning = <<>>
Idle == todo = {} /\ \A i \in 1..NFolds : copies[i] = "none"
Propose(g) == /\ Idle /\ trial < MaxTrials /\ trial' = trial + 1 /\ given' = g
              /\ todo' \in IF mode = "full" THEN {1..NFolds} ELSE {{i} : i \in 1..NFolds}
              /\ UNCHANGED <<orig, shared, folds, mode, copies, log, tuning>>
\* a fresh copy with the parameters of the trial is fitted on the training rows of its fold
Fit(i) == /\ i \in todo /\ copies[i] = "none" /\ copies' = [copies EXCEPT ![i] = "fitted"]
          /\ log' = log \cup {[op |-> "fit", trial |-> trial, fold |-> i, rows |-> folds[i].tr, p |-> Effective(shared, given)]}
          /\ UNCHANGED <<orig, shared, folds, mode, trial, given, todo, tuning>>
Score(i) == /\ i \in todo /\ copies[i] = "fitted" /\ copies' = [copies EXCEPT ![i] = "none"] /\ todo' = todo \ {i}
            /\ log' = log \cup {[op |-> "score", trial |-> trial, fold |-> i, rows |-> folds[i].te, p |-> Effective(shared, given)]}
            /\ tuning' = IF todo' = {} THEN Append(tuning, given) ELSE tuning
            /\ UNCHANGED <<orig, shared, folds, mode, trial, given>>
Next == (\E g \in Proposals : Propose(g)) \/ (\E i \in 1..NFolds : Fit(i)) \/ (\E i \in 1..NFolds : Score(i))
Spec == Init /\ [][Next]_vars
NeverSeen == \A s \in log : s.op = "score" => \A f \in log : (f.op = "fit" /\ f.trial = s.trial /\ f.fold = s.fold) => f.rows \cap s.rows = {}
\* parameters which a trial does not propose are the original ones, whatever earlier trials proposed
NoLeak == shared = orig /\ \A s \in log : s.trial = trial => s.p = Effective(orig, given)
OneFitPerScore == \A s \in log : s.op = "score" => Cardinality({f \in log : f.op = "fit" /\ f.trial = s.trial /\ f.fold = s.fold}) = 1
Complete == Idle => /\ Len(tuning) = trial
                    /\ \A t \in 1..trial : Cardinality({s \in log : s.op = "score" /\ s.trial = t}) = IF mode = "full" THEN NFolds ELSE 1
=============================================================================
