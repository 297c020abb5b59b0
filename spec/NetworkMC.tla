----------------------------- MODULE NetworkMC -----------------------------
(* Training of both kinds of networks by arbitrary steps: the guarantees hold for all weights that can be reached. *)
EXTENDS Network, TLC
CONSTANTS Lim, Grid
VARIABLES mode, w, K1, K2, b
vars == <<mode, w, K1, K2, b>>
Y == (0 - Grid)..Grid
Clip(v) == IF v > Lim THEN Lim ELSE IF v < -Lim THEN -Lim ELSE v
Zero == [wz2 |-> 0, wy1 |-> 0, wy2 |-> 0, gz |-> 1, h1 |-> 1, h2 |-> 1, b1 |-> 0]
Id == <<0, 0, 0>>
Init == /\ mode \in {"convex", "stable", "monotone", "invertible"} /\ w = Zero /\ K1 = Id /\ K2 = Id /\ b = 0
Convexity == mode \in {"convex", "stable", "monotone"}
\* one weight moves, then the constraints are put back
TrainWeight == \E k \in {"wz2", "wy1", "wy2"}, d \in {-1, 1} :
    Convexity /\ w' = Reproject(mode, [w EXCEPT ![k] = Clip(@ + d)]) /\ UNCHANGED <<mode, K1, K2, b>>
\* biases are free; what the gates make of the exogenous inputs too, but gates of layers are not negative (nor, in monotone networks, those of controls)
TrainGate == \E k \in {"gz", "h1", "h2", "b1"}, v \in (0 - Lim)..Lim :
    Convexity /\ (k = "gz" => v >= 0) /\ (mode = "monotone" /\ k \in {"h1", "h2"} => v >= 0)
    /\ w' = [w EXCEPT ![k] = v] /\ UNCHANGED <<mode, K1, K2, b>>
TrainKernel == \E i \in 1..3, v \in {-1, 0, 1} : mode = "invertible"
    /\ \/ K1' = [K1 EXCEPT ![i] = v] /\ UNCHANGED <<K2, b>>
       \/ K2' = [K2 EXCEPT ![i] = v] /\ UNCHANGED <<K1, b>>
       \/ b' = v /\ UNCHANGED <<K1, K2>>
    /\ UNCHANGED <<mode, w>>
Next == TrainWeight \/ TrainGate \/ TrainKernel
Spec == Init /\ [][Next]_vars

Shape == LET f(y) == Out(mode, w, y) IN
    /\ mode \in {"convex", "stable"} => ConvexOn(f, Y)
    /\ mode = "monotone" => IncreasingOn(f, Y)
In3 == [1..3 -> {-1, 0, 2}]
Inverse == mode = "invertible" => \A x \in In3 : LET s == <<x[1], x[2], x[3]>> IN Invert(K1, K2, b, Embed(K1, K2, b, s)) = s
Causal == mode = "invertible" => \A x \in In3 : \A j \in 1..3 :
    LET s == <<x[1], x[2], x[3]>>
        e == Embed(K1, K2, b, s)
        f == Embed(K1, K2, b, [s EXCEPT ![j] = @ + 1])
    IN  /\ \A i \in 1..(j - 1) : f[i] = e[i]
        /\ f[j] > e[j]
\* the reprojection matters: without it training reaches networks that are not convex, or not increasing
ASSUME \E v \in {-1}, g \in {1} : LET f(y) == Out("convex", [Zero EXCEPT !.wz2 = v, !.wy1 = g], y) IN ~ConvexOn(f, -2..2)
ASSUME LET f(y) == Out("monotone", [Zero EXCEPT !.wz2 = 1, !.wy1 = -1], y) IN ~IncreasingOn(f, -2..2)
ASSUME LET f(y) == Out("convex", [Zero EXCEPT !.wz2 = 1, !.wy1 = -1], y) IN ConvexOn(f, -2..2) /\ ~IncreasingOn(f, -2..2)
=============================================================================
