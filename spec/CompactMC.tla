----------------------------- MODULE CompactMC -------------------------------
(***************************************************************************)
(* A table of N rows processed piece by piece: split, apply f to each piece   *)
(* in any order of completion, put together.  Integers are moved to the       *)
(* smallest of a family of small types that holds them.                       *)
(***************************************************************************)
EXTENDS Compact
CONSTANTS N, MaxK, Bits
VARIABLES n, k, sizes, done, out, col, bits
vars == <<n, k, sizes, done, out, col, bits>>
Rows == [i \in 1..n |-> i]
F(i) == 10 * i
Cut(i) == (n * i) \div k
Range(b) == IF b = 1 THEN -1..0 ELSE IF b = 2 THEN -2..1 ELSE IF b = 3 THEN -4..3 ELSE -8..7
Init == /\ n \in 0..N /\ k \in 1..MaxK /\ sizes = [i \in 1..k |-> Cut(i) - Cut(i - 1)] /\ done = {} /\ out = <<>>
        /\ bits = Bits /\ col \in [1..2 -> Range(Bits)]
Work == \E i \in (1..k) \ done : done' = done \cup {i} /\ UNCHANGED <<n, k, sizes, out, col, bits>>
Join == done = 1..k /\ out = <<>> /\ out' = Concat([i \in 1..k |-> [j \in 1..sizes[i] |-> F(Piece(Rows, sizes, i)[j])]]) /\ n > 0 /\ UNCHANGED <<n, k, sizes, done, col, bits>>
\* a type is left for a smaller one that holds the extremes
Shrink == \E b \in 1..(bits - 1) : (\A i \in 1..2 : col[i] \in Range(b)) /\ bits' = b /\ UNCHANGED <<n, k, sizes, done, out, col>>
Next == Work \/ Join \/ Shrink
Spec == Init /\ [][Next]_vars
SplitOk == IsSplit(sizes, n, k) /\ Concat([i \in 1..k |-> Piece(Rows, sizes, i)]) = Rows
JoinOk == out # <<>> => out = [i \in 1..n |-> F(i)]
Holds == \A i \in 1..2 : col[i] \in Range(bits)
\* rounding to single precision: the exact value, its neighbours, and nothing else
Mant == {Two23, Two23 + 1, 2 * Two23 - 1}
Rounding == \A h \in Mant, lo \in {0, 1, Two29 \div 2, Two29 - 1}, h2 \in Mant \cup {Two23 + 2}, e2 \in {3, 4} :
    LET a == <<"num", 1, 3, h, lo>> b == <<"num", 1, e2, h2, 0>>
    IN  InSingle(a, b) => \/ lo <= Two29 \div 2 /\ h2 = h /\ e2 = 3
                          \/ lo >= Two29 \div 2 /\ h2 = h + 1 /\ e2 = 3
                          \/ lo >= Two29 \div 2 /\ h = 2 * Two23 - 1 /\ h2 = Two23 /\ e2 = 4
=============================================================================
