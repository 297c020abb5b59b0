------------------------------- MODULE TunerMC -------------------------------
(***************************************************************************)
(* Design model: workers take candidates in any order, several at a time;    *)
(* for each target one fresh model is fitted on the first rows and scored on *)
(* the others.  The configuration is shared by the candidates, a worker      *)
(* completes its own copy.  When all are scored the best one is kept and     *)
(* refitted on all the rows with all the columns.                            *)
(***************************************************************************)
EXTENDS Tuner
CONSTANTS N, K, NSA, Targets, NCand, Vals
VARIABLES ys, cand, shared, work, scores, log, chosen
vars == <<ys, cand, shared, work, scores, log, chosen>>
Cols == Targets \cup {99}
Idle == [c |-> 0, m |-> "none"]
Init == /\ ys \in [Targets -> [1..N -> Vals]] /\ cand \in [1..NCand -> [a : 0..1, b : 0..0]]
        /\ shared = [target |-> 1, targets |-> Targets]
        /\ work = [i \in 1..NCand |-> Idle] /\ scores = [i \in 1..NCand |-> [c \in Targets |-> -1]] /\ log = {} /\ chosen = 0
Train(i, c) == /\ work[i] = Idle /\ scores[i][c] = -1 /\ work' = [work EXCEPT ![i] = [c |-> c, m |-> "fitted"]]
               /\ log' = log \cup {[op |-> "fit", i |-> i, c |-> c, rows |-> 1..K, cols |-> Features(Cols, shared.targets, c)]}
               /\ UNCHANGED <<ys, cand, shared, scores, chosen>>
Backtest(i) == /\ work[i] # Idle /\ LET c == work[i].c IN
                    /\ scores' = [scores EXCEPT ![i][c] = SqErr(cand[i], K, NSA, ys[c])]
                    /\ log' = log \cup {[op |-> "score", i |-> i, c |-> c, rows |-> (K + 1)..N, cols |-> Features(Cols, shared.targets, c)]}
               /\ work' = [work EXCEPT ![i] = Idle] /\ UNCHANGED <<ys, cand, shared, chosen>>
Done == \A i \in 1..NCand, c \in Targets : scores[i][c] # -1
TotalOf(i) == SumSeq([j \in 1..Cardinality(Targets) |-> scores[i][j]])
Keep == /\ Done /\ chosen = 0 /\ chosen' \in {i \in 1..NCand : \A j \in 1..NCand : TotalOf(i) <= TotalOf(j)}
        /\ log' = log \cup {[op |-> "final", i |-> chosen', c |-> shared.target, rows |-> 1..N, cols |-> Cols]}
        /\ UNCHANGED <<ys, cand, shared, work, scores>>
Next == (\E i \in 1..NCand, c \in Targets : Train(i, c)) \/ (\E i \in 1..NCand : Backtest(i)) \/ Keep
Spec == Init /\ [][Next]_vars
Honest == \A s \in log : s.op = "score" => \A f \in log : (f.op = "fit" /\ f.i = s.i /\ f.c = s.c) => f.rows \cap s.rows = {}
NoOtherTarget == \A f \in log : f.op # "final" => f.cols \cap Targets = {f.c}
Optimal == chosen # 0 => cand[chosen] \in Best(Set(cand), LAMBDA p : Total(p, K, NSA, [j \in 1..Cardinality(Targets) |-> ys[j]]))
Everyone == chosen # 0 => \A i \in 1..NCand, c \in Targets : \E s \in log : s.op = "score" /\ s.i = i /\ s.c = c
Unshared == shared = [target |-> 1, targets |-> Targets]
=============================================================================
