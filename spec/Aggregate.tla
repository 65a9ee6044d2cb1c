------------------------------ MODULE Aggregate -----------------------------
(* Time series bookkeeping: gaps, complete days and daily values.  Times are *)
(* minutes (or seconds) counted from a midnight.                             *)
EXTENDS Fix, FiniteSets

\* pairs of consecutive rows whose distance is not the time step
Gaps(times, step) == Cardinality({i \in 2..Len(times) : times[i] - times[i - 1] # step})

(* Days start at hour `shift` and end an hour before that.  Rows before the  *)
(* first start of a day and after the last end of a day are dropped.         *)
Shift(s) == IF s \in 0..23 THEN s ELSE 0
StartsDay(m, s) == m % 1440 = 60 * s
EndsDay(m, s) == m % 1440 = 60 * ((s + 23) % 24)
Kept(times, s) ==
  LET starts == {i \in 1..Len(times) : StartsDay(times[i], Shift(s))}
      ends == {i \in 1..Len(times) : EndsDay(times[i], Shift(s))}
  IN {i \in 1..Len(times) : (\E a \in starts : a <= i) /\ (\E b \in ends : i <= b)}

(* Daily values from the available readings of a day.                        *)
RECURSIVE Total(_, _, _)
Total(v, a, b) == IF a > b THEN 0 ELSE (IF IsNA(v[a]) THEN 0 ELSE v[a]) + Total(v, a + 1, b)
Avail(v, R) == {i \in R : ~IsNA(v[i])}
MeanOf(v, a, b) == LET n == Cardinality(Avail(v, a..b)) IN IF n = 0 THEN NA ELSE RDiv(Total(v, a, b), n)
MinOf(v, a, b) == LET S == {v[i] : i \in Avail(v, a..b)} IN IF S = {} THEN NA ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxOf(v, a, b) == LET S == {v[i] : i \in Avail(v, a..b)} IN IF S = {} THEN NA ELSE CHOOSE x \in S : \A y \in S : x >= y
=============================================================================
