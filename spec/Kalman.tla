------------------------------- MODULE Kalman -------------------------------
(***************************************************************************)
(* Linear filtering in exact arithmetic, for states and observations of one  *)
(* or two components.  A belief is a mean xm/xd and a covariance Pm/Pd with  *)
(* integer matrices over a common denominator.                               *)
(*                                                                          *)
(*   Predict:  x <- F x             P <- F P F' + Q                          *)
(*   Update:   S = H P H' + R       x <- x + P H' S^-1 (y - H x)             *)
(*                                  P <- P - P H' S^-1 H P                   *)
(***************************************************************************)
EXTENDS Num
Rows(A) == Len(A)
Cols(A) == Len(A[1])
Mat(n, m, f(_, _)) == [i \in 1..n |-> [j \in 1..m |-> f(i, j)]]
Mul(A, B) == Mat(Rows(A), Cols(B), LAMBDA i, j : SumTo([k \in 1..Cols(A) |-> A[i][k] * B[k][j]], Cols(A)))
Tr(A) == Mat(Cols(A), Rows(A), LAMBDA i, j : A[j][i])
Plus(A, B) == Mat(Rows(A), Cols(A), LAMBDA i, j : A[i][j] + B[i][j])
Minus(A, B) == Mat(Rows(A), Cols(A), LAMBDA i, j : A[i][j] - B[i][j])
Times(c, A) == Mat(Rows(A), Cols(A), LAMBDA i, j : c * A[i][j])
Ident(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Col(x) == [i \in 1..Len(x) |-> <<x[i]>>]
Vec(A) == [i \in 1..Rows(A) |-> A[i][1]]
Det(A) == IF Rows(A) = 1 THEN A[1][1] ELSE A[1][1] * A[2][2] - A[1][2] * A[2][1]
Adj(A) == IF Rows(A) = 1 THEN <<<<1>>>> ELSE <<<<A[2][2], -A[1][2]>>, <<-A[2][1], A[1][1]>>>>

Belief(x, P) == [xm |-> Col(x), xd |-> 1, Pm |-> P, Pd |-> 1]
Predicted(b, F, Q) == [xm |-> Mul(F, b.xm), xd |-> b.xd, Pm |-> Plus(Mul(F, Mul(b.Pm, Tr(F))), Times(b.Pd, Q)), Pd |-> b.Pd]
Innovation(b, H, R) == Plus(Mul(H, Mul(b.Pm, Tr(H))), Times(b.Pd, R))
Updated(b, y, H, R) ==
    LET S == TLCEval(Innovation(b, H, R))
        d == Det(S)
        G == TLCEval(Mul(b.Pm, Mul(Tr(H), Adj(S))))
    IN  [xm |-> Plus(Times(d, b.xm), Mul(G, Minus(Times(b.xd, Col(y)), Mul(H, b.xm)))), xd |-> d * b.xd,
         Pm |-> Minus(Times(d, b.Pm), Mul(G, Mul(H, b.Pm))), Pd |-> d * b.Pd]

\* lowest terms (beliefs which are equal are then equal as values)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
GcdOf(A, d) == LET RECURSIVE go(_, _) go(s, g) == IF s = <<>> THEN g ELSE go(Tail(s), Gcd(g, Head(s)))
               IN  go([k \in 1..(Rows(A) * Cols(A)) |-> A[((k - 1) \div Cols(A)) + 1][((k - 1) % Cols(A)) + 1]], Abs(d))
Over(A, g) == Mat(Rows(A), Cols(A), LAMBDA i, j : IF A[i][j] < 0 THEN -((-A[i][j]) \div g) ELSE A[i][j] \div g)
Lowest(b) ==
    LET gx == GcdOf(b.xm, b.xd)
        gp == GcdOf(b.Pm, b.Pd)
    IN  [xm |-> Over(b.xm, gx), xd |-> b.xd \div gx, Pm |-> Over(b.Pm, gp), Pd |-> b.Pd \div gp]
=============================================================================
