------------------------------ MODULE DiurnalMC -----------------------------
(* Observations arrive in any order, each enters the running sum of its own  *)
(* month and hour exactly once; the statistics of the whole grid agree with  *)
(* these sums.  Two months, days assigned to them in every way.              *)
EXTENDS Diurnal
CONSTANTS NDays, Vals
VARIABLES month, v, seen, acc
vars == <<month, v, seen, acc>>
Hrs == {0, 5}
Pos == (1..NDays) \X Hrs
Init == /\ month \in [1..NDays -> 1..2]
        /\ v \in {[k \in 1..(24 * NDays) |-> IF <<((k - 1) \div 24) + 1, (k - 1) % 24>> \in Pos THEN f[<<((k - 1) \div 24) + 1, (k - 1) % 24>>] ELSE NA]
                    : f \in [Pos -> Vals \cup {NA}]}
        /\ seen = {} /\ acc = [m \in 1..2, h \in Hrs |-> <<0, 0>>]
Take == \E p \in Pos \ seen :
          /\ seen' = seen \cup {p} /\ UNCHANGED <<month, v>>
          /\ acc' = IF IsNA(At(v, p[1], p[2])) THEN acc
                    ELSE [acc EXCEPT ![month[p[1]], p[2]] = <<@[1] + At(v, p[1], p[2]), @[2] + 1>>]
Next == Take
Done == seen = Pos
Agree == Done => \A m \in 1..2, h \in Hrs :
   LET c == MonthCourse(v, month, m)[h]
   IN IF acc[m, h][2] = 0 THEN IsNA(c) ELSE c = RDiv(acc[m, h][1], acc[m, h][2])
Scaled == Done => \A m \in 1..2 :
   LET c == MonthCourse(v, month, m)
       s == ScaledCourse(c)
   IN Spread(c) > 0 => (\E h \in 0..23 : s[h] = 0) /\ (\E h \in 0..23 : s[h] = M6) /\ (\A h \in 0..23 : IsNA(s[h]) \/ s[h] \in 0..M6)
=============================================================================
