------------------------------- MODULE PolarMC ------------------------------
(* Design check of the polar night rule on every pattern of polar and normal *)
(* days and every development of the daily temperatures.  The states are     *)
(* also replayed into the real code.                                         *)
EXTENDS Temperature
CONSTANTS ND, Lows, Range, MinLoc, MaxLoc
VARIABLES pol, tmin
tmax == [d \in 1..ND |-> tmin[d] + Range]
loc == [d \in 1..ND |-> <<MinLoc, MaxLoc>>]
base == [k \in 1..(24 * ND) |-> MinMax(tmin, tmax, ((k - 1) \div 24) + 1, (k - 1) % 24, MinLoc, MaxLoc, FALSE)]
Init == pol \in [1..ND -> BOOLEAN] /\ tmin \in [1..ND -> Lows]
Next == FALSE /\ UNCHANGED <<pol, tmin>>
Sound ==
  LET c == TLCEval(PolarCourse(TLCEval(base), pol, loc, tmin, tmax))
      D(k) == ((k - 1) \div 24) + 1
      at(d, h) == c[24 * (d - 1) + h + 1]
  IN /\ \A k \in 1..(24 * ND) : IsVal(c[k])
     /\ \A d \in 1..ND : ~InSpell(pol, d) => \A h \in 0..23 : at(d, h) = base[24 * (d - 1) + h + 1]
     \* both daily extremes are met on every polar day, and never left except towards a neighbour's reading
     /\ \A d \in 1..ND : pol[d] => {at(d, 6), at(d, 18)} = {tmin[d], tmax[d]}
     /\ \A d \in 2..ND : pol[d] => (at(d, 6) <= at(d, 18) <=> tmin[d - 1] <= tmin[d])
     /\ \A d \in 1..ND : pol[d] => \A h \in 6..18 : at(d, h) >= tmin[d] /\ at(d, h) <= tmax[d]
     \* no jumps between polar days: adjacent hours differ by no more than the steepest line allows
     /\ \A k \in 2..(24 * ND) : (pol[D(k)] /\ pol[D(k - 1)]) => Abs(c[k] - c[k - 1]) <= ((2 * Range) \div 12) + 2
=============================================================================
