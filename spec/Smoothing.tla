----------------------------- MODULE Smoothing -----------------------------
(***************************************************************************)
(* Additive exponential smoothing (level, optional trend, optional season)  *)
(* in innovations form, as a recursion over observations.                   *)
(*   p = [a, b, g, m, D]   gains a/D, b/D, g/D; m phases (1 without season)  *)
(*   s = [l, b, s, k]      level, trend, one term per phase, rows seen       *)
(* An observation NA (missing) counts as equal to its forecast.             *)
(***************************************************************************)
EXTENDS Num
Missing == -1000000000
Term(p, s, k) == IF p.m = 0 THEN 0 ELSE s.s[((s.k + k - 1) % p.m) + 1]
\* forecast k steps after the last row seen
Ahead(p, s, k) == s.l + k * s.b + Term(p, s, k)
Observe(p, s, y) ==
    LET e == IF y = Missing THEN 0 ELSE y - Ahead(p, s, 1)
        i == IF p.m = 0 THEN 0 ELSE (s.k % p.m) + 1
    IN  [l |-> s.l + s.b + (p.a * e) \div p.D,
         b |-> s.b + (p.b * e) \div p.D,
         s |-> [j \in DOMAIN s.s |-> IF j = i THEN s.s[j] + (p.g * e) \div p.D ELSE s.s[j]],
         k |-> s.k + 1]
\* states after 1, 2, ... rows of ys
States(p, s, ys) == LET run[i \in 0..Len(ys)] == IF i = 0 THEN s ELSE Observe(p, run[i - 1], ys[i]) IN [i \in 1..Len(ys) |-> run[i]]
Forecasts(p, s, ys, n) == LET st == States(p, s, ys) IN [i \in 1..Len(ys) |-> [k \in 1..n |-> Ahead(p, st[i], k)]]
\* errors of the forecasts of the k-th step, each with the observation of its own row
Errors(p, s, ys, n, k) ==
    LET f == Forecasts(p, s, ys, n)
        all == [i \in 1..(Len(ys) - n) |-> IF ys[i + k] = Missing THEN Missing ELSE ys[i + k] - f[i][k]]
    IN  SelectSeq(all, LAMBDA e : e # Missing)
=============================================================================
