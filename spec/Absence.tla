------------------------------- MODULE Absence ------------------------------
(* Two ways of saying that a day is unknown: its row holds missing values,   *)
(* or there is no row.  kind[d] is "value", "missing" or "absent"; the first *)
(* and the last day of a series always have a row.                           *)
EXTENDS Integers, Sequences, FiniteSets

Listed(kind) == SelectSeq([d \in 1..Len(kind) |-> d], LAMBDA d : kind[d] # "absent")
\* what is known; the same for all ways of writing the series down
Known(kind) == {d \in 1..Len(kind) : kind[d] = "value"}
Filled(kind) == [d \in 1..Len(kind) |-> IF kind[d] = "absent" THEN "missing" ELSE kind[d]]
\* results: r holds per values for every day of the filled series, s for every listed day
SameResult(kind, r, s, per, same(_, _)) ==
  LET L == Listed(kind) IN
    /\ Len(s) = per * Len(L)
    /\ \A i \in 1..Len(L) : \A k \in 1..per : same(s[per * (i - 1) + k], r[per * (L[i] - 1) + k])
=============================================================================
