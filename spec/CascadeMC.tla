----------------------------- MODULE CascadeMC -----------------------------
(* Exhaustive configuration of the cascade design model.                     *)
EXTENDS Cascade
MCSupport == [l \in 1..NLevels |-> [b \in 1..2 |-> [y \in 1..4 |->
   CASE y = ISOLATED /\ b = 1 -> {FIRST, SECOND}
     [] y = ISOLATED /\ b = 2 -> {1, 4, SECOND}
     [] y = STARTING -> {SECOND, 2}
     [] y = ENDING -> {FIRST, 7}
     [] y = ENCLOSED -> {FIRST, 4, SECOND}]]]
MCThr == [l \in 1..NLevels |-> 1]
\* on completed five-level behaviours (NLevels = 5 is only simulated) the hours conserve mass
HoursConserve == (lev = NLevels + 1 /\ NLevels = 5) =>
   \A d \in 1..NDays : SumRange([h \in 1..(24 * NDays) |-> Hour3(box, h)], 24 * (d - 1) + 1, 24 * d) = 3 * days[d]
=============================================================================
