------------------------------ MODULE Network ------------------------------
(***************************************************************************)
(* The networks whose shape is guaranteed by construction, over integers.   *)
(* Partially input convex: every layer adds a non-negative combination of    *)
(* the last layer (through a non-negative gate of the exogenous inputs), a   *)
(* linear function of the controls (through another gate) and a term that    *)
(* does not depend on the controls.  Training moves the weights anywhere;    *)
(* after every step they are reprojected.  Causal invertible: unit lower     *)
(* triangular kernels and strictly increasing activations.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Relu(v) == IF v > 0 THEN v ELSE 0
\* a bounded increasing activation which is neither convex nor concave (stands for a sigmoid)
Squash(v) == IF v > 2 THEN 2 ELSE IF v < -2 THEN -2 ELSE v
Act(mode, v) == IF mode = "monotone" THEN Squash(v) ELSE Relu(v)

\* w: wz2 (weight of the first layer in the second), wy1, wy2 (weights of the control), gz, h1, h2 (gates), b1 (bias)
Out(mode, w, y) ==
    LET z1 == Act(mode, w.wy1 * w.h1 * y + w.b1)
    IN  w.wz2 * w.gz * z1 + w.wy2 * w.h2 * y

ConvexOn(f(_), D) == \A a \in D : (a - 1 \in D /\ a + 1 \in D) => f(a - 1) + f(a + 1) >= 2 * f(a)
IncreasingOn(f(_), D) == \A a \in D : a + 1 \in D => f(a + 1) >= f(a)

\* what is put back after each training step
Reproject(mode, w) ==
    CASE mode = "convex"   -> [w EXCEPT !.wz2 = Relu(@)]
      [] mode = "stable"   -> [w EXCEPT !.wz2 = Relu(@), !.wy1 = Relu(@), !.wy2 = Relu(@)]
      [] mode = "monotone" -> [w EXCEPT !.wz2 = Relu(@), !.wy1 = Relu(@), !.wy2 = Relu(@)]
      [] OTHER             -> w

\* ---- causal invertible layers over three inputs: K = <<k21, k31, k32>>, b = bias
Bend(v) == IF v >= 0 THEN 3 * v ELSE 2 * v            \* strictly increasing, onto its image
Unbend(v) == IF v >= 0 THEN v \div 3 ELSE -((-v) \div 2)
Linear(K, b, x) == <<x[1] + b, K[1] * x[1] + x[2] + b, K[2] * x[1] + K[3] * x[2] + x[3] + b>>
Solve(K, b, y) ==
    LET x1 == y[1] - b
        x2 == y[2] - b - K[1] * x1
    IN  <<x1, x2, y[3] - b - K[2] * x1 - K[3] * x2>>
\* two layers, the last one without activation
Embed(K1, K2, b, x) == LET z == Linear(K1, b, x) IN Linear(K2, b, [i \in 1..3 |-> Bend(z[i])])
Invert(K1, K2, b, y) == LET z == Solve(K2, b, y) IN Solve(K1, b, [i \in 1..3 |-> Unbend(z[i])])
=============================================================================
