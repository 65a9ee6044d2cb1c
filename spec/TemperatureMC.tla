---------------------------- MODULE TemperatureMC ---------------------------
(* Design check of the cosine course: a clock steps through the hours of     *)
(* three days for every choice of extremes and hours of minimum/maximum.     *)
EXTENDS Temperature
CONSTANTS Lows, Highs, MinLocs, MaxLocs
VARIABLES tmin, tmax, m, M, night, k, x
vars == <<tmin, tmax, m, M, night, k, x>>
ND == 3
Val(kk) == MinMax(tmin, tmax, (kk \div 24) + 1, kk % 24, m, M, night)
Init == /\ tmin \in [1..ND -> Lows] /\ tmax \in [1..ND -> Highs]
        /\ m \in MinLocs /\ M \in MaxLocs /\ night \in BOOLEAN
        /\ k = 0 /\ x = MinMax(tmin, tmax, 1, 0, m, M, night)
Tick == k < 24 * ND - 1 /\ k' = k + 1 /\ x' = Val(k + 1) /\ UNCHANGED <<tmin, tmax, m, M, night>>
Next == Tick
\* only the initial states: configurations to be replayed into the code
Stop == FALSE /\ UNCHANGED vars
D == (k \div 24) + 1
H == k % 24
Bounds == x >= Min2(tmin[D], LowOf(tmin, D, 23, M)) - 2 /\ x <= Max2(tmax[D], HighOf(tmax, D, 0, m)) + 2
AtMax == H = M => Near(x, tmax[D], 2)
AtMin == H = (IF night THEN m ELSE M - 12) => Near(x, tmin[D], 2)
\* the course is continuous over midnight: 23h and 0h of the next day swing between the same extremes
SameSwing == (H = 23 /\ D < ND /\ m > 0) => LowOf(tmin, D, 23, M) = LowOf(tmin, D + 1, 0, M) /\ HighOf(tmax, D, 23, m) = HighOf(tmax, D + 1, 0, m)
\* the only rise in the night-time course is between minimum and maximum
NextHour == k' % 24
Falls == [][(night /\ (NextHour > M \/ NextHour \in 1..m)) => x' <= x + 2]_vars
\* the mean of the symmetric course is preserved
MeanOK == (k = 0) => Near(Sum([h \in 1..24 |-> CosStd(h - 1, M)]), 0, 60)
=============================================================================
