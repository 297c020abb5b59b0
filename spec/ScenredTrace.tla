---------------------------- MODULE ScenredTrace ----------------------------
(* Outputs of the reduction of n scenarios over T steps, and trees of forecasters, against module Tree. *)
EXTENDS Tree, SequencesExt, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
E == Traces[tid].ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "run"
\* a tree of T steps; distinct: the values of a step are known to differ from each other
GraphOf(o, n, T, nodes, exact, tol, distinct) ==
    LET nd == {[id |-> o.nodes[i][1], t |-> o.nodes[i][2] + 1, p |-> o.nodes[i][3], rep |-> o.nodes[i][4]] : i \in 1..Len(o.nodes)}
        ed == {<<o.edges[i][1], o.edges[i][2]>> : i \in 1..Len(o.edges)}
    IN  IF Cardinality(nd) # Len(o.nodes) \/ ~WellFormed(nd, ed, T) THEN "the graph is not a tree rooted at the first step"
        ELSE IF exact /\ \E t \in 1..T : Cardinality(NodesAt(nd, t)) # Min2(n, nodes[t]) THEN "wrong number of nodes at a step"
        ELSE IF \E x \in nd : x.rep = 0 THEN "a node's value is none of the scenarios' values at its step"
        ELSE IF distinct /\ \E t \in 1..T : Cardinality({x.rep : x \in NodesAt(nd, t)}) # Cardinality(NodesAt(nd, t)) THEN "two nodes of a step have the same value"
        ELSE IF \E x \in nd : x.p <= 0 THEN "a node has no probability"
        ELSE IF ~ChildrenSum(nd, ed, T, n, tol) THEN "probability of a node is not that of its children"
        ELSE "ok"
GraphClause(o, n, T, nodes, exact, tol) == GraphOf(o, n, T, nodes, exact, tol, TRUE)
ReduceClause ==
    LET o == E.obs
        n == E.n
        T == E.T
        m == Len(o.cols)                        \* scenarios that remain at the last step
        alive == [t \in 1..T |-> {s \in 1..n : o.J[t][s]}]
        C == 1..m
        rep(t, c) == o.S[t][c]
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.mutated THEN "caller's scenarios or node counts were modified"
        ELSE IF Set(o.cols) # alive[T] THEN "columns returned are not those of the remaining scenarios"
        ELSE IF ~Shrinking(T, alive) THEN "a scenario removed at a step is alive before it"
        ELSE IF E.exact /\ ~Sizes(n, T, alive, E.nodes) THEN "wrong number of nodes at a step"
        ELSE IF ~E.exact /\ Cardinality(alive[1]) # 1 THEN "more than one root"
        ELSE IF \E t \in 1..T, c \in C : rep(t, c) = 0 THEN "a value is none of the scenarios' values at its step"
        ELSE IF \E t \in 1..T, c \in C : rep(t, c) \notin alive[t] \/ (o.cols[c] \in alive[t] /\ rep(t, c) # o.cols[c]) THEN "a path does not carry the values of the remaining scenarios"
        ELSE IF ~Coherent(C, T, [t \in 1..T |-> [c \in C |-> rep(t, c)]]) THEN "merged scenarios differ at an earlier step"
        ELSE IF \E t \in 1..T, c \in C : o.P[t][c] < 0 \/ (o.P[t][c] > 0) # (o.cols[c] \in alive[t]) THEN "probability is not carried by the remaining scenarios"
        ELSE IF \E t \in 1..T : Sum(o.P[t]) # n THEN "probabilities of a step do not sum to one"
        ELSE IF \E t \in 2..T, c \in C : o.cols[c] \in alive[t - 1] /\ o.P[t - 1][c] # SumOver([k \in {k \in C : rep(t - 1, k) = o.cols[c]} |-> IF o.cols[k] \in alive[t] THEN o.P[t][k] ELSE 0]) THEN "probability of a node is not that of its children"
        ELSE IF \E t \in 1..T, i, j \in C : o.Me[t][i][j] # (rep(t, i) = rep(t, j)) THEN "match matrix differs from the paths"
        ELSE IF {<<x[2] + 1, x[4], x[3]>> : x \in Set(o.nodes)} # UNION {{<<t, s, o.P[t][CHOOSE c \in C : o.cols[c] = s]>> : s \in alive[t]} : t \in 1..T} THEN "the graph's nodes are not the remaining scenarios with their probabilities"
        ELSE IF {o.paths[i] : i \in 1..Len(o.paths)} # {[t \in 1..T |-> rep(t, c)] : c \in C} THEN "the graph's paths are not the reduced scenarios"
        ELSE GraphClause(o, n, T, E.nodes, E.exact, 0)
TreeClause ==
    LET o == E.obs IN
    IF ~o.ok THEN "raised: " \o o.err
    ELSE IF o.mutated THEN "caller's data was modified"
    ELSE IF Len(o.trees) # E.rows THEN "wrong number of trees"
    ELSE LET bad == {i \in 1..Len(o.trees) : GraphClause(o.trees[i], E.n, E.T, E.nodes, E.exact, E.tol) # "ok"}
         IN  IF bad = {} THEN "ok" ELSE GraphClause(o.trees[CHOOSE i \in bad : TRUE], E.n, E.T, E.nodes, E.exact, E.tol)
\* the scenarios which follow each node of a quantile tree: those of the parent, split by their quantiles at the
\* step into as many groups as there are children (a group without scenarios keeps all those of the parent);
\* E.scale times the values of the k children are the quantiles 1/(k+1) .. k/(k+1) of the parent's scenarios
Children(nd, ed, x) == SetToSortSeq({m \in nd : <<x.id, m.id>> \in ed}, LAMBDA a, b : a.v < b.v \/ (a.v = b.v /\ a.id < b.id))
Values(t, F) == LET q == SetToSeq(F) IN Ascending([i \in 1..Len(q) |-> E.scens[t][q[i]]])
RECURSIVE Follows(_, _, _, _)
Follows(nd, ed, x, F) ==                    \* F: the scenarios that follow the node x
    LET ch == Children(nd, ed, x)
        k == Len(ch)
        v == Values(x.t + 1, F)
        part(i) == {s \in F : k * E.scens[x.t + 1][s] >= QuantileTimes(v, i - 1, k) /\ k * E.scens[x.t + 1][s] <= QuantileTimes(v, i, k)}
    IN  k = 0 \/ (/\ \A i \in 1..k : Near((k + 1) * ch[i].v, E.scale * QuantileTimes(v, i, k + 1), k + 1)
                  /\ \A i \in 1..k : Follows(nd, ed, ch[i], IF part(i) = {} THEN F ELSE part(i)))
\* quantile trees: requested shape, equal shares, values which are quantiles of the scenarios that follow the parent
QTreeClause ==
    LET o == E.obs
        nd == {[id |-> o.nodes[i][1], t |-> o.nodes[i][2] + 1, p |-> o.nodes[i][3], v |-> o.nodes[i][4]] : i \in 1..Len(o.nodes)}
        ed == {<<o.edges[i][1], o.edges[i][2]>> : i \in 1..Len(o.edges)}
        lo(t) == Ascending(E.scens[t])[1]
        hi(t) == Ascending(E.scens[t])[E.n]
        one == E.one
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF ~WellFormed(nd, ed, E.T) THEN "the graph is not a tree rooted at the first step"
        ELSE IF \E t \in 1..E.T : Cardinality(NodesAt(nd, t)) # E.nodes[t] THEN "wrong number of nodes at a step"
        ELSE IF \E x \in nd : ~Near(x.p * E.nodes[x.t], one, E.nodes[x.t]) THEN "nodes of a step do not share the probability equally"
        ELSE IF \E x \in nd : x.v < E.scale * lo(x.t) - 1 \/ x.v > E.scale * hi(x.t) + 1 THEN "a node's value lies outside the scenarios' values at its step"
        ELSE IF \E x \in nd : x.t = 1 /\ ~(Near(2 * x.v, E.scale * QuantileTimes(Ascending(E.scens[1]), 1, 2), 2) /\ Follows(nd, ed, x, 1..E.n))
             THEN "a node's value is not the quantile of the scenarios that follow its parent"
        ELSE "ok"
\* scenarios which agree at some steps, and trees whose values are optimised: the shape, the shares
\* and the arrays returned beside the graph
TiesClause ==
    LET o == E.obs
        close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], 2)
    IN  IF ~o.ok THEN "raised: " \o o.err
        ELSE IF o.mutated THEN "the caller's scenarios or tree were modified"
        ELSE IF \E t \in 1..Len(o.sums) : o.sums[t] # E.n THEN "probabilities of a step do not sum to one"
        ELSE IF Len(o.scens) # Len(o.paths) \/ \E t \in 1..Len(o.scens) : ~close(o.scens[t], o.paths[t]) THEN "scenarios returned with the tree are not those of its nodes"
        ELSE IF ~close(o.vals, o.nodev) THEN "values returned with the tree are not those of its nodes"
        ELSE GraphOf(o, E.n, E.T, E.nodes, TRUE, 0, FALSE)
Clause == CASE E.op = "reduce" -> ReduceClause
            [] E.op = "tree" -> TreeClause
            [] E.op = "qtree" -> QTreeClause
            [] E.op = "ties" -> TiesClause
            [] E.op = "same" -> IF ~E.obs.ok THEN "raised: " \o E.obs.err ELSE IF E.obs.a # E.obs.b THEN E.what ELSE "ok"
            [] OTHER -> IF E.obs.ok THEN "ok" ELSE "raised: " \o E.obs.err
Consume == /\ st = "run" /\ l <= Len(Traces[tid].ev) /\ UNCHANGED tid
           /\ LET c == Clause IN
                IF c = "ok" THEN l' = l + 1 /\ st' = "run"
                ELSE PrintT(<<"VERDICT", tid, l, c>>) /\ st' = "rejected" /\ UNCHANGED l
Finish == st = "run" /\ l > Len(Traces[tid].ev) /\ PrintT(<<"DONE", tid>>) /\ st' = "accepted" /\ UNCHANGED <<tid, l>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
