------------------------------ MODULE BenchMC --------------------------------
(* A series arrives value by value; the seasonal benchmark remembers the end of the training and is asked about what follows. *)
EXTENDS Bench
CONSTANTS Season, Steps, Len1, Len2, V
VARIABLES past, asked, mem
vars == <<past, asked, mem>>
Init == past = <<>> /\ asked = <<>> /\ mem = <<>>
Observe == Len(past) < Len1 /\ mem = <<>> /\ \E v \in V : past' = Append(past, v) /\ UNCHANGED <<asked, mem>>
Train == Len(past) >= Season /\ mem = <<>> /\ mem' = Last(past, Season) /\ UNCHANGED <<past, asked>>
Ask == mem # <<>> /\ Len(asked) < Len2 /\ \E v \in V : asked' = Append(asked, v) /\ UNCHANGED <<past, mem>>
Next == Observe \/ Train \/ Ask
Spec == Init /\ [][Next]_vars
Whole == past \o asked
F == Seasonal(mem, asked, Season, Steps)
\* the forecast for time t (counted over the whole series) is the value a whole number of seasons earlier, and known when it is made
OneSeason == mem # <<>> => \A i \in 1..Len(asked), k \in 1..Steps :
    LET now == Len(past) + i
        back == CHOOSE m \in 1..(Steps + 1) : now + k - m * Season <= now /\ now + k - (m - 1) * Season > now
    IN  F[i][k] = Whole[now + k - back * Season]
\* a periodic series is forecast without error
Exact == (mem # <<>> /\ \A t \in (Season + 1)..Len(Whole) : Whole[t] = Whole[t - Season])
         => \A i \in 1..(Len(asked) - Steps) : \A k \in 1..Steps : Errors(F, asked, Steps)[i][k] = 0
\* with seasons of one row both benchmarks agree
Agree == (mem # <<>> /\ Season = 1) => F = Persist(asked, Steps)
\* frequencies of a time of day sum to the number of its rows
Frequencies == LET ys == [i \in 1..Len(Whole) |-> <<Whole[i]>>]
                   ms == [i \in 1..Len(Whole) |-> (i * 30) % 90]
               IN  \A m \in {0, 30, 60} : LET S == Seen(ms, 60, m) IN SumOver([v \in V |-> Count(ys, S, 1, v)]) = Cardinality(S)
=============================================================================
