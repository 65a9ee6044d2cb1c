------------------------------- MODULE WindMC -------------------------------
(* Design check of the cosine course: a day passes hour by hour and the sum  *)
(* of the hourly factors is accumulated.                                     *)
EXTENDS Wind
As == {-10000, -3300, 0, 2500, 10000}
Bs == {10000, 9000, 11234}
Shifts == {-120000, 0, 37500, 120000, 155555, 239999}
VARIABLES a, b, s, h, acc
vars == <<a, b, s, h, acc>>
Init == a \in As /\ b \in Bs /\ s \in Shifts /\ h = 0 /\ acc = 0
Next == h < 24 /\ h' = h + 1 /\ acc' = acc + CosFactor(h, a, b, s) /\ UNCHANGED <<a, b, s>>
MeanFactor == h = 24 => Near(acc, 24 * 100 * b, 120)
NonNegative == (h < 24 /\ Abs(a) <= b) => CosFactor(h, a, b, s) >= -5
Bound == h < 24 => Abs(CosFactor(h, a, b, s) - 100 * b) <= 100 * Abs(a) + 5
=============================================================================
