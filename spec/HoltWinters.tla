---------------------------- MODULE HoltWinters ----------------------------
(***************************************************************************)
(* The double-seasonal additive Holt-Winters recursion, in fixed point      *)
(* (values scaled by an integer, gains in percent, rounding to nearest).    *)
(* A state is [a, b, s1, s2]: level, trend and the two seasons, oldest term *)
(* first: s[1] is the term due at the next observation.                     *)
(***************************************************************************)
EXTENDS Num
Pct(x) == IF x >= 0 THEN (x + 50) \div 100 ELSE -((50 - x) \div 100)
Clamp(x, lo, hi) == Min2(Max2(lo, x), hi)
Blend(g, new, old) == Pct(g * new + (100 - g) * old)
\* p = [al, be, g1, g2, lo, hi]
Missing == -1000000000
Due(st) == st.a + st.b + st.s1[1] + st.s2[1]
Feed(st, y0, p) ==
    LET y == IF y0 = Missing THEN Due(st) ELSE y0
        a == Blend(p.al, y - st.s1[1] - st.s2[1], st.a + st.b)
    IN  [a |-> a, b |-> Blend(p.be, a - st.a, st.b),
         s1 |-> Append(Tail(st.s1), Clamp(Blend(p.g1, y - a - st.s2[1], st.s1[1]), p.lo, p.hi)),
         s2 |-> Append(Tail(st.s2), Clamp(Blend(p.g2, y - a - st.s1[1], st.s2[1]), p.lo, p.hi))]
Forecast(st, h) == st.a + h * st.b + st.s1[((h - 1) % Len(st.s1)) + 1] + st.s2[((h - 1) % Len(st.s2)) + 1]
\* states after each of the observations ys, starting from st
RECURSIVE States(_, _, _)
States(st, ys, p) == IF ys = <<>> THEN <<>> ELSE LET s == Feed(st, Head(ys), p) IN <<s>> \o States(s, Tail(ys), p)
Fresh(y, p1, p2) == [a |-> 0, b |-> 0, s1 |-> [i \in 1..p1 |-> y], s2 |-> [i \in 1..p2 |-> y]]
=============================================================================
