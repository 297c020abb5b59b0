----------------------------- MODULE FourierMC -----------------------------
(***************************************************************************)
(* Design check of Fourier.tla: a forecaster observes a sequence; training  *)
(* may end anywhere.  Complete basis (m odd, all harmonics): the kernel is   *)
(* the identity.                                                            *)
(***************************************************************************)
EXTENDS Fourier
CONSTANTS M, N, Values, MaxLen, Kinds
VARIABLES par, ys, s, trained
vars == <<par, ys, s, trained>>
Pars == {[kind |-> k, m |-> M, n |-> N, period |-> p, al |-> 5000, om |-> 9000, kappa |-> 10000, rho |-> 100000000, D |-> [i \in 1..M |-> IF i = 1 THEN 1000000 ELSE 0]] : k \in Kinds, p \in N..M}
Init == par \in Pars /\ ys = <<>> /\ trained = -1 /\ s = <<>>
Obs(y) == /\ Len(ys) < MaxLen /\ ys' = Append(ys, y) /\ s' = Observe(par, IF ys = <<>> THEN Begin(par, y) ELSE s, y)
          /\ UNCHANGED <<par, trained>>
Train == ys # <<>> /\ trained < 0 /\ trained' = Len(ys) /\ UNCHANGED <<par, ys, s>>
Next == (\E y \in Values : Obs(y)) \/ Train
Spec == Init /\ [][Next]_vars
n == Len(ys)
\* the window is the last m observations, zeros before the first
Window == n > 0 => s.w = [i \in 1..M |-> IF n - M + i >= 1 THEN ys[n - M + i] ELSE 0]
Phase == n > 0 => s.phase = n % M
\* training on a prefix and predicting the rest is one run over all
Continuity == trained > 0 => LET a == Run(par, Begin(par, ys[1]), SubSeq(ys, 1, trained))
                                 b == Run(par, a[trained], SubSeq(ys, trained + 1, n))
                             IN  (IF b = <<>> THEN a[trained] ELSE b[n - trained]) = s
\* a season repeated until the start is forgotten is forecast as it was (without correction: up to the memory of the start)
Repeats == n > 2 * M /\ \A i \in (M + 1)..n : ys[i] = ys[i - M]
Periodic == Repeats /\ par.kind = "fk" /\ par.period = M =>
              \A h \in 1..N : Abs(Seasonal(par, s, h) - S * ys[((n + h - 1) % M) + 1]) <= 1500
\* the correction decreases to one nth squared of it at the last step
Decay == n > 0 => \A h \in 1..(N - 1) : Abs(ForecastOf(par, s, h) - Seasonal(par, s, h)) >= Abs(ForecastOf(par, s, h + 1) - Seasonal(par, s, h + 1))
=============================================================================
