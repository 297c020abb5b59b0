------------------------------- MODULE Trainer -------------------------------
(***************************************************************************)
(* Cross validation and tuning of hyperparameters.  A model has parameters   *)
(* [a, b]; a trial proposes some of them (NA = not proposed) and evaluates   *)
(* the model with the original value of the others.  A fold is a pair of     *)
(* sets of rows.  The model of the harness forecasts                        *)
(*    Pred = (3a + 5b + sum of the rows trained on + 7 row) mod 23 - 11 + 10(col-1)  *)
(* so that a score tells which parameters, rows and fold it comes from.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
NA == -1000000000
Set(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x + SumSet(S \ {x})
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* parameters of a trial: what it proposes, else the original ones
Effective(orig, given) == [k \in DOMAIN orig |-> IF given[k] = NA THEN orig[k] ELSE given[k]]
Pred(p, trsum, row, col) == ((3 * p.a + 5 * p.b + trsum + 7 * row) % 23) - 11 + 10 * (col - 1)
\* absolute errors of the test rows of a fold, row by row and column by column
FoldErrors(p, f, y) ==
    LET ts == SumSet(Set(f.tr)) K == Len(y[1]) IN
    [i \in 1..(Len(f.te) * K) |-> LET r == f.te[((i - 1) \div K) + 1] c == ((i - 1) % K) + 1 IN Abs(Pred(p, ts, r, c) - y[r][c])]
FoldScore(metric, p, f, y) ==
    LET e == FoldErrors(p, f, y) IN IF metric = "worst" THEN Max(Set(e)) ELSE SumSeq(e)
FoldPred(p, f, y) == LET ts == SumSet(Set(f.tr)) IN [i \in 1..Len(f.te) |-> [c \in 1..Len(y[1]) |-> Pred(p, ts, f.te[i], c)]]
FoldTrue(f, y) == [i \in 1..Len(f.te) |-> y[f.te[i]]]
\* dense rank: one plus the number of distinct smaller values
Rank(vs, i) == 1 + Cardinality({vs[j] : j \in {k \in 1..Len(vs) : vs[k] < vs[i]}})
=============================================================================
