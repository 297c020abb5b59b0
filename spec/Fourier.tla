------------------------------ MODULE Fourier ------------------------------
(***************************************************************************)
(* The adaptive forecasters: a periodic curve f over the m phases of a      *)
(* season, moved at each observation towards the projection of the window   *)
(* of the last m observations onto trigonometric functions, and a decaying  *)
(* correction eps by the last one-step error.                               *)
(*   Observations are integers; curve, corrections and forecasts are scaled *)
(* by 1000, gains by 10000.  D is the kernel of the projection (scaled by    *)
(* 10^6): D[j+1] is the weight of an observation j phases away.             *)
(*   state: [f, w, eps, last, phase, g]; g = gain of the previous step (FK). *)
(*   par: [kind, m, n, period, al, om, kappa, rho, D]                       *)
(***************************************************************************)
EXTENDS Num
S == 1000
Div(x, d) == IF x >= 0 THEN (x + d \div 2) \div d ELSE -((d \div 2 - x) \div d)
Mix(g, new, old) == Div(g * new + (10000 - g) * old, 10000)
At(s, tau) == s[(tau % Len(s)) + 1]
\* one observation more in the window
Push(w, y) == Append(Tail(w), y)
\* projected curve at phase tau, when the newest observation of the window has phase p + m - 1
Projected(D, w, p, tau) == Div(SumTo([k \in 1..Len(w) |-> At(D, tau - p - (k - 1) + 2 * Len(w)) * w[k]], Len(w)), 1000)
\* gain of a scalar Kalman filter with variances in units of the observation noise: kappa of the process, rho of the state
Gain(rho, kappa) == 10000 - 100000000 \div (rho + kappa + 10000)
Begin(par, y) == [f |-> [i \in 1..par.m |-> IF par.kind = "es" THEN S * y ELSE 0], w |-> [i \in 1..par.m |-> 0], eps |-> 0, last |-> 0, phase |-> 0, g |-> par.rho]
\* the step forecast h, before the correction
Seasonal(par, s, h) == At(s.f, s.phase - 1 + par.m - par.period + h - 1 + par.m)
Observe(par, s, y) ==
    LET w == Push(s.w, y)
        g == IF par.kind = "es" THEN par.al ELSE Gain(s.g, par.kappa)
        f == TLCEval([i \in 1..par.m |-> Mix(g, Projected(par.D, w, s.phase, i - 1), s.f[i])])
        new == [s EXCEPT !.f = f, !.w = w, !.g = g, !.phase = (s.phase + 1) % par.m]
        last == Seasonal(par, new, 1)
    IN  [new EXCEPT !.last = last, !.eps = Mix(par.om, S * y - (IF par.kind = "es" THEN s.last ELSE last), s.eps)]
ForecastOf(par, s, h) == Seasonal(par, s, h) + Div(s.eps * (par.n - h + 1) * (par.n - h + 1), par.n * par.n)
RECURSIVE Run(_, _, _)
Run(par, s, ys) == IF ys = <<>> THEN <<>> ELSE LET t == TLCEval(Observe(par, s, Head(ys))) IN <<t>> \o Run(par, t, Tail(ys))
\* forecasts after each observation
Table(par, states) == TLCEval([r \in 1..Len(states) |-> [h \in 1..par.n |-> ForecastOf(par, states[r], h)]])
=============================================================================
