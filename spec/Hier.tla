-------------------------------- MODULE Hier --------------------------------
(***************************************************************************)
(* Hierarchies of series.  A hierarchy is a sequence of entries             *)
(* [key, ch]: the aggregated series key and its children.  Series are        *)
(* numbered; those which are no key are bottom series.                      *)
(***************************************************************************)
EXTENDS Num
Keys(H) == {H[i].key : i \in 1..Len(H)}
Children(H, k) == Set(H[CHOOSE i \in 1..Len(H) : H[i].key = k].ch)
Nodes(H) == Keys(H) \cup UNION {Set(H[i].ch) : i \in 1..Len(H)}
Bottoms(H) == Nodes(H) \ Keys(H)
RECURSIVE Leaves(_, _)
Leaves(H, n) == IF n \in Keys(H) THEN UNION {Leaves(H, c) : c \in Children(H, n)} ELSE {n}
Root(H) == CHOOSE k \in Keys(H) : \A j \in Keys(H) : k \notin Children(H, j)
RECURSIVE Level(_, _)
Level(H, n) == IF n = Root(H) THEN 0 ELSE 1 + Level(H, CHOOSE k \in Keys(H) : n \in Children(H, k))
\* v maps every series to a value
Coherent(H, v, tol) == \A k \in Keys(H) : Near(v[k], SumOver([b \in Leaves(H, k) |-> v[b]]), tol)
=============================================================================
