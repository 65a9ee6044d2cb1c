------------------------------ MODULE Cascade ------------------------------
(* The multiplicative cascade model for precipitation.                       *)
(*                                                                           *)
(* State: the boxes of the current level (one volume per equal time slice of *)
(* every day), the level, and the position of the box being split.  Every    *)
(* action splits one box; after the last box the level is complete.  The     *)
(* random draws of the implementation are the nondeterminism of the action:  *)
(* any split whose probability is non-zero in the statistics may be taken.   *)
EXTENDS CascadeBox

CONSTANTS NDays, NLevels, DayVolumes, Thr, Support
\* Support[level][intensity][type] \subseteq Splits : splits of non-zero probability

VARIABLES days, lev, box, pos, out
vars == <<days, lev, box, pos, out>>

\* volumes are counted in units of which a day holds a multiple of 14^NLevels
Unit == 14 ^ NLevels
Wet(b) == [i \in 1..Len(b) |-> IF b[i] > 0 THEN 1 ELSE 0]

Init == /\ days \in [1..NDays -> {v * Unit : v \in DayVolumes}]
        /\ lev = 1
        /\ box = [i \in 1..NDays |-> days[i]]
        /\ pos = 1
        /\ out = <<>>

Halves(v, s) == CASE s = FIRST  -> <<v, 0>>
                  [] s = SECOND -> <<0, v>>
                  [] OTHER      -> <<(v \div 14) * (2 * s - 1), v - (v \div 14) * (2 * s - 1)>>

SplitDry == /\ pos <= Len(box) /\ lev <= NLevels /\ box[pos] = 0
            /\ out' = out \o <<0, 0>>
            /\ pos' = pos + 1
            /\ UNCHANGED <<days, lev, box>>

SplitWet(s) == /\ pos <= Len(box) /\ lev <= NLevels /\ box[pos] > 0
               /\ s \in Support[lev][Intensity(box[pos], (Thr[lev] * Unit) \div (2 ^ lev))][BoxType(Wet(box), pos)]
               /\ out' = out \o Halves(box[pos], s)
               /\ pos' = pos + 1
               /\ UNCHANGED <<days, lev, box>>

NextLevel == /\ pos > Len(box) /\ lev <= NLevels
             /\ box' = out /\ out' = <<>> /\ pos' = 1 /\ lev' = lev + 1
             /\ UNCHANGED days

Next == SplitDry \/ NextLevel \/ \E s \in Splits : SplitWet(s)
Spec == Init /\ [][Next]_vars

\* boxes of the level under construction that belong to day d, then the rest of the old level
DayTotal(b, perDay, d) == SumRange(b, (d - 1) * perDay + 1, d * perDay)
PerDay == 2 ^ (lev - 1)

TypeOK == /\ lev \in 1..(NLevels + 1)
          /\ Len(box) = NDays * PerDay
          /\ Len(out) = 2 * (pos - 1)
NonNegative == \A i \in 1..Len(box) : box[i] >= 0
MassConserved == \A d \in 1..NDays : DayTotal(box, PerDay, d) = days[d]
PartialMass == \A i \in 1..(pos - 1) : out[2 * i - 1] + out[2 * i] = box[i]
DryStaysDry == \A d \in 1..NDays : days[d] = 0 =>
                 \A i \in ((d - 1) * PerDay + 1)..(d * PerDay) : box[i] = 0
\* a wet box never vanishes: every wet day keeps at least one wet box
WetStaysWet == \A d \in 1..NDays : days[d] > 0 =>
                 \E i \in ((d - 1) * PerDay + 1)..(d * PerDay) : box[i] > 0
\* the isolated/starting/... classes are consistent with the neighbours' classes
TypesChain == \A i \in 1..(Len(box) - 1) : box[i] > 0 /\ box[i + 1] > 0 =>
                 /\ BoxType(Wet(box), i) \in {STARTING, ENCLOSED}
                 /\ BoxType(Wet(box), i + 1) \in {ENCLOSED, ENDING}
=============================================================================
