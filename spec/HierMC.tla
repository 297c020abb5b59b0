------------------------------- MODULE HierMC -------------------------------
(***************************************************************************)
(* All rooted trees of up to MaxN series: series 1 is the root, every other  *)
(* is attached to an earlier one.  Series that got children are aggregations, *)
(* listed in one of several orders.                                         *)
(***************************************************************************)
EXTENDS Hier, Json
CONSTANTS MinN, MaxN
VARIABLES parent, order, done
vars == <<parent, order, done>>
Init == parent = <<0>> /\ order \in {"down", "up", "rootlast"} /\ done = FALSE
Grow == ~done /\ Len(parent) < MaxN /\ \E p \in 1..Len(parent) : parent' = Append(parent, p) /\ UNCHANGED <<order, done>>
N == Len(parent)
Agg == SelectSeq([i \in 1..N |-> i], LAMBDA i : \E j \in 1..N : parent[j] = i)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
KeyOrder == IF order = "down" THEN Agg ELSE IF order = "up" THEN Rev(Agg) ELSE Append(Tail(Agg), 1)
H == [i \in 1..Len(KeyOrder) |-> [key |-> KeyOrder[i], ch |-> SelectSeq([j \in 1..N |-> j], LAMBDA j : parent[j] = KeyOrder[i])]]
Stop == ~done /\ N >= MinN /\ done' = TRUE /\ PrintT(<<"BEH", ToJson([h |-> H])>>) /\ UNCHANGED <<parent, order>>
Next == Grow \/ Stop
Spec == Init /\ [][Next]_vars
OneRoot == N > 1 => Root(H) = 1 /\ Leaves(H, 1) = Bottoms(H) /\ Nodes(H) = 1..N
Partition == N > 1 => \A k \in Keys(H) : \A c, d \in Children(H, k) : c # d => Leaves(H, c) \cap Leaves(H, d) = {}
Depth == N > 1 => \A j \in 2..N : Level(H, j) = Level(H, parent[j]) + 1
\* summing the bottom series of an aggregation is summing its children
Sums == N > 1 => LET v == [b \in Bottoms(H) |-> b * b + 1]
                     up(n) == SumOver([b \in Leaves(H, n) |-> v[b]])
                 IN  \A k \in Keys(H) : up(k) = SumOver([c \in Children(H, k) |-> up(c)])
=============================================================================
