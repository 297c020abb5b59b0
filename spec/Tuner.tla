-------------------------------- MODULE Tuner --------------------------------
(***************************************************************************)
(* Tuning of the recursive forecasters (Holt-Winters, Fourier, ...): random  *)
(* candidates, each scored for each target by a backtest, the best one kept. *)
(* A candidate is [a, b] (integers; what the model of the harness makes of   *)
(* its parameters).  That model, trained on rows 1..k for target c, forecasts *)
(*   Pred = (3a + 5b + sum of the row numbers trained on + 7 row) mod 23     *)
(*           - 11 + 10 (step - 1)                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Set(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Pred(p, k, row, step) == ((3 * p.a + 5 * p.b + ((k * (k + 1)) \div 2) + 7 * row) % 23) - 11 + 10 * (step - 1)
\* squared errors of the backtest: rows k+1..n-nsa, each forecast of nsa steps against the values that followed
SqErr(p, k, nsa, y) ==
    SumSeq([i \in 1..((Len(y) - nsa - k) * nsa) |->
              LET r == k + 1 + ((i - 1) \div nsa) s == ((i - 1) % nsa) + 1 d == Pred(p, k, r, s) - y[r + s] IN d * d])
Total(p, k, nsa, ys) == SumSeq([c \in 1..Len(ys) |-> SqErr(p, k, nsa, ys[c])])
\* features of a model of target c: all the columns but the other targets
Features(cols, targets, c) == cols \ (targets \ {c})
Best(cands, Score(_)) == {p \in cands : \A q \in cands : Score(p) <= Score(q)}
=============================================================================
