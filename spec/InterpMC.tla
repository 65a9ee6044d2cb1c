------------------------------- MODULE InterpMC -----------------------------
(* All patterns of present and missing readings over a few days, for all     *)
(* sets of reading hours, fill limits and directions: laws of the            *)
(* interpolation, and the cases replayed into Station.interpolate.           *)
EXTENDS Interp, TLC, FiniteSets
CONSTANTS Days, MaxCols
VARIABLE c
Hours == {0, 5, 14, 23}
Limits == {1, 7, 100}
Val(j, d) == 20000 + 5000 * ((3 * j + 5 * d) % 7)
Sets == {S \in SUBSET Hours : S # {} /\ Cardinality(S) <= MaxCols}
Init == \E S \in Sets, L \in Limits, dir \in {"both", "forward", "backward"} :
          \E M \in SUBSET (S \X (1..Days)) : c = [hours |-> S, missing |-> M, limit |-> L, dir |-> dir]
Next == UNCHANGED c
P == TLCEval([k \in 1..(24 * Days) |-> LET h == (k - 1) % 24
                                d == ((k - 1) \div 24) + 1
                            IN IF h \in c.hours /\ <<h, d>> \notin c.missing THEN Val(h, d) ELSE NA])
R == TLCEval([k \in 1..(24 * Days) |-> FillFrom(P, k, 1, 24 * Days, c.limit, c.dir)])
Known == {k \in 1..(24 * Days) : ~IsNA(P[k])}
Laws ==
  LET Q == P
      X == R
      K == {k \in 1..(24 * Days) : ~IsNA(Q[k])}
  IN /\ \A k \in K : X[k] = Q[k]
     /\ (K = {}) => \A k \in 1..(24 * Days) : IsNA(X[k])
     \* a value stays between the smallest and the largest reading
     /\ \A k \in 1..(24 * Days) : IsNA(X[k]) \/ (\E a, b \in K : Q[a] <= X[k] /\ X[k] <= Q[b])
     \* nothing further than the limit from every reading
     /\ \A k \in 1..(24 * Days) : ~IsNA(X[k]) => \E a \in K : Abs(a - k) <= c.limit
     \* the two areas share the filled hours out between them
     /\ \A k \in 1..(24 * Days) : LET i == FillArea(Q, k, 1, 24 * Days, c.limit, c.dir, "inside")
                                     o == FillArea(Q, k, 1, 24 * Days, c.limit, c.dir, "outside")
                                 IN IF k \in K THEN i = X[k] /\ o = X[k] ELSE (IsNA(i) \/ IsNA(o)) /\ (i = X[k] \/ o = X[k])
     \* both directions together are the union of the single ones, and agree with the two-sided fill
     /\ c.dir = "both" => \A k \in 1..(24 * Days) : X[k] = Fill(Q, k, 1, 24 * Days, c.limit)
=============================================================================
