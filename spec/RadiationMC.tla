----------------------------- MODULE RadiationMC ----------------------------
(* Design check of the radiation models: three hours stand for a day.        *)
EXTENDS Radiation
CONSTANTS Pots, Globs, Ranges
VARIABLES pot, g, r2, k, acc
vars == <<pot, g, r2, k, acc>>
Init == pot \in [1..3 -> Pots] /\ g \in Globs /\ r2 \in Ranges /\ k = 0 /\ acc = 0
Mean == (pot[1] + pot[2] + pot[3]) \div 3
Next == k < 3 /\ k' = k + 1 /\ acc' = acc + Hour(pot[k + 1], Mean, g) /\ UNCHANGED <<pot, g, r2>>
MeanKept == (k = 3 /\ Mean > 1000) => Near(acc, 3 * g, 4 + (g \div 300))
Dark == (k < 3 /\ pot[k + 1] = 0) => Hour(pot[k + 1], Mean, g) = 0
NotNegative == (k < 3) => Hour(pot[k + 1], Mean, g) >= 0
ShareBound == BCShare(r2, 8000000, 24000) \in 0..M6
ShareGrows == BCShare(r2, 8000000, 24000) <= BCShare(r2 + 10000, 8000000, 24000) + 3
CloudlessAngstroem == Near(Angstroem(2500, 5000, 100000, 5000000, 3000000), 2250000, 3)
=============================================================================
