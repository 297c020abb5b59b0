------------------------------ MODULE KalmanMC ------------------------------
(***************************************************************************)
(* Fusing measurements of a constant state, one or two components, in any    *)
(* order.  The belief is that of information form, whatever the order; the   *)
(* variance of no combination of the components grows; the covariance stays  *)
(* symmetric and positive; taking two independent measurements at once is    *)
(* taking them one after the other.  Between measurements the state may      *)
(* spread (process noise).                                                   *)
(***************************************************************************)
EXTENDS Kalman
CONSTANTS MaxTaken, MaxSpread
VARIABLES dim, prior, taken, spread, b, last
vars == <<dim, prior, taken, spread, b, last>>
Prior1 == {[P |-> <<<<2>>>>, x |-> <<1>>], [P |-> <<<<3>>>>, x |-> <<-2>>]}
Prior2 == {[P |-> <<<<2, 1>>, <<1, 2>>>>, x |-> <<1, 0>>], [P |-> <<<<1, 0>>, <<0, 3>>>>, x |-> <<0, -1>>]}
Meas1 == {[H |-> <<<<h>>>>, R |-> <<<<r>>>>, y |-> <<y>>] : h \in {0, 1, 2}, r \in {1, 2}, y \in {-1, 2}}
Meas2 == {[H |-> <<h>>, R |-> <<<<1>>>>, y |-> <<y>>] : h \in {<<1, 0>>, <<0, 1>>, <<1, -1>>}, y \in {0, 2}}
Meas == IF dim = 1 THEN Meas1 ELSE Meas2
Noise == IF dim = 1 THEN <<<<1>>>> ELSE <<<<1, 1>>, <<1, 2>>>>
Init == /\ dim \in 1..2 /\ prior \in (IF dim = 1 THEN Prior1 ELSE Prior2)
        /\ taken = <<>> /\ spread = 0 /\ b = Belief(prior.x, prior.P) /\ last = "none"
Take == /\ Len(taken) < MaxTaken /\ last' = "take" /\ UNCHANGED <<dim, prior, spread>>
        /\ \E m \in Meas : taken' = Append(taken, m) /\ b' = Lowest(Updated(b, m.y, m.H, m.R))
Spread == /\ spread < MaxSpread
          /\ spread' = spread + 1 /\ b' = Lowest(Predicted(b, Ident(dim), Noise)) /\ last' = "spread" /\ UNCHANGED <<dim, prior, taken>>
Next == Take \/ Spread
Spec == Init /\ [][Next]_vars

\* information form: P^-1 = P0^-1 + sum H'H/r, P^-1 x = P0^-1 x0 + sum H'y/r  (times the common denominator)
Common == Det(prior.P) * 2
Info == LET RECURSIVE go(_) go(s) == IF s = <<>> THEN Times(2, Adj(prior.P)) ELSE Plus(go(Tail(s)), Times(Common \div Head(s).R[1][1], Mul(Tr(Head(s).H), Head(s).H))) IN go(taken)
Score == LET RECURSIVE go(_) go(s) == IF s = <<>> THEN Mul(Times(2, Adj(prior.P)), Col(prior.x)) ELSE Plus(go(Tail(s)), Times((Common \div Head(s).R[1][1]) * Head(s).y[1], Tr(Head(s).H))) IN go(taken)
InformationForm == spread = 0 => /\ Mul(Info, b.Pm) = Times(Common * b.Pd, Ident(dim))
                                 /\ Mul(Info, b.xm) = Times(b.xd, Score)
Symmetric == b.Pm = Tr(b.Pm) /\ b.Pd > 0
Positive == b.Pm[1][1] > 0 /\ Det(b.Pm) > 0
\* z'Pz does not grow by a measurement, nor shrink by a spread
Quad(A, z) == Mul(Tr(Col(z)), Mul(A, Col(z)))[1][1]
Probes == IF dim = 1 THEN {<<1>>} ELSE {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, -1>>, <<1, 2>>}
MeasuringInforms == [][\A z \in Probes : LET was == Quad(b.Pm, z) * b'.Pd
                                             is == Quad(b'.Pm, z) * b.Pd
                                         IN  IF last' = "take" THEN is <= was ELSE is >= was]_vars
TwoAtOnce == \A m \in Meas : \A n \in Meas :
    Len(taken) = 0 =>
       LET joint == Lowest(Updated(b, m.y \o n.y, m.H \o n.H, <<<<m.R[1][1], 0>>, <<0, n.R[1][1]>>>>))
           one == Lowest(Updated(Lowest(Updated(b, m.y, m.H, m.R)), n.y, n.H, n.R))
       IN  joint = one
=============================================================================
