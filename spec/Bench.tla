-------------------------------- MODULE Bench --------------------------------
(***************************************************************************)
(* Benchmark forecasters of a series of integers.                            *)
(*   persistent: every step repeats the current value                         *)
(*   seasonal:   step k repeats the value one season before that step; steps   *)
(*               beyond one season repeat the same season; the values before    *)
(*               the first row asked are the remembered end of the training     *)
(*   discrete:   relative frequencies of the values seen at each time of day    *)
(***************************************************************************)
EXTENDS Num
\* value known one season before step k of row i, of the series remembered \o asked
SeasonBack(s, k) == ((k - 1) % s) + 1
Persist(xs, n) == [i \in 1..Len(xs) |-> [k \in 1..n |-> xs[i]]]
Seasonal(mem, xs, s, n) == LET v == mem \o xs IN [i \in 1..Len(xs) |-> [k \in 1..n |-> v[i + SeasonBack(s, k)]]]
Last(xs, s) == SubSeq(xs, Len(xs) - s + 1, Len(xs))
Forecast(kind, mem, xs, s, n) == IF kind = "persistent" THEN Persist(xs, n) ELSE Seasonal(mem, xs, s, n)
\* errors of the rows whose horizon is known
Errors(f, xs, n) == [i \in 1..(Len(xs) - n) |-> [k \in 1..n |-> xs[i + k] - f[i][k]]]
\* errors of step k at the rows of an hour (hour -1: all)
ErrorsOf(errs, hours, h, k) == Ascending([i \in 1..Len(SelectIdx(Len(errs), LAMBDA r : h = -1 \/ hours[r] = h)) |-> errs[SelectIdx(Len(errs), LAMBDA r : h = -1 \/ hours[r] = h)[i]][k]])
\* ---- discrete
Slot(minute, dt) == minute \div dt
Seen(minutes, dt, m) == {r \in 1..Len(minutes) : Slot(minutes[r], dt) = Slot(m, dt)}
Count(ys, rows, j, v) == Cardinality({r \in rows : ys[r][j] = v})
=============================================================================
