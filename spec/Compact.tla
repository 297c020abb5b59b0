------------------------------ MODULE Compact --------------------------------
(***************************************************************************)
(* Splitting a table in consecutive pieces, applying a function piece by      *)
(* piece, and storing numbers in smaller types.                               *)
(*                                                                           *)
(* Integers are sequences of four limbs <<sign, hi, mid, lo>> (base 2^24);    *)
(* floats are <<"num", sign, e, hi, lo>>: sign * (hi * 2^29 + lo) * 2^(e - 52)*)
(* with 2^23 <= hi < 2^24 (single precision keeps hi), or <<"zero">>,         *)
(* <<"nan">>, <<"inf", sign>>.                                                *)
(***************************************************************************)
EXTENDS Num
\* cut points of a split of n entries in k pieces
IsSplit(sizes, n, k) == /\ Len(sizes) = k /\ Sum(sizes) = n
                        /\ \A i, j \in 1..k : Abs(sizes[i] - sizes[j]) <= 1
Start(sizes, i) == SumTo(sizes, i - 1)
Piece(m, sizes, i) == SubSeq(m, Start(sizes, i) + 1, Start(sizes, i + 1))
RECURSIVE Concat(_)
Concat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Concat(Tail(ps))
\* ---- numbers kept in single precision: nearest number with a mantissa of 24 bits
Two23 == 8388608
Two29 == 536870912
InSingle(a, b) ==
    IF a[1] # "num" THEN b = a
    ELSE b[1] = "num" /\ b[2] = a[2]
         /\ LET up == a[5] >= Two29 \div 2
                down == a[5] <= Two29 \div 2
            IN  \/ b = a
                \/ b[5] = 0 /\ down /\ b[3] = a[3] /\ b[4] = a[4]
                \/ b[5] = 0 /\ up /\ b[3] = a[3] /\ b[4] = a[4] + 1
                \/ b[5] = 0 /\ up /\ a[4] = 2 * Two23 - 1 /\ b[3] = a[3] + 1 /\ b[4] = Two23
\* what a column may become: kind and number of bytes
Admissible(kind, size, kind2, size2) ==
    CASE kind \in {"int", "float"} -> kind2 = kind /\ size2 <= size
      [] OTHER -> kind2 = kind /\ size2 = size
Kept(kind, v, w) == IF kind = "float" THEN InSingle(v, w) ELSE v = w
=============================================================================
