-------------------------------- MODULE Interp ------------------------------
(* Linear interpolation between known readings of an hourly series with a    *)
(* fill limit.  P[k] is the reading at position k, NA where there is none.   *)
EXTENDS Fix

\* nearest known position before / after k inside the stretch lo..hi; 0 if none
RECURSIVE Back(_, _, _), Fwd(_, _, _)
Back(P, k, lo) == IF k < lo THEN 0 ELSE IF ~IsNA(P[k]) THEN k ELSE Back(P, k - 1, lo)
Fwd(P, k, hi)  == IF k > hi THEN 0 ELSE IF ~IsNA(P[k]) THEN k ELSE Fwd(P, k + 1, hi)
\* linear interpolation at position k with a fill limit counted from the known readings
Fill(P, k, lo, hi, limit) ==
  LET a == Back(P, k, lo)
      b == Fwd(P, k, hi)
  IN IF ~IsNA(P[k]) THEN P[k]
     ELSE IF a > 0 /\ b > 0
     THEN IF k - a <= limit \/ b - k <= limit THEN P[a] + MulDiv(P[b] - P[a], k - a, b - a) ELSE NA
     ELSE IF a > 0 THEN (IF k - a <= limit THEN P[a] ELSE NA)
     ELSE IF b > 0 THEN (IF b - k <= limit THEN P[b] ELSE NA)
     ELSE NA

(* Filling from one side only: "forward" reaches limit hours past a reading, *)
(* "backward" limit hours ahead of one; between two readings the value is on *)
(* the line, outside of them it repeats the reading it was reached from.     *)
FillFrom(P, k, lo, hi, limit, dir) ==
  LET a == Back(P, k, lo)
      b == Fwd(P, k, hi)
      fw == a > 0 /\ k - a <= limit
      bw == b > 0 /\ b - k <= limit
  IN IF ~IsNA(P[k]) THEN P[k]
     ELSE IF ~((dir # "backward" /\ fw) \/ (dir # "forward" /\ bw)) THEN NA
     ELSE IF a > 0 /\ b > 0 THEN P[a] + MulDiv(P[b] - P[a], k - a, b - a)
     ELSE IF a > 0 THEN P[a] ELSE P[b]

\* filling restricted to the hours between readings ("inside") or before and after all of them ("outside")
FillArea(P, k, lo, hi, limit, dir, area) ==
  LET between == Back(P, k, lo) > 0 /\ Fwd(P, k, hi) > 0
  IN IF IsNA(P[k]) /\ ((area = "inside" /\ ~between) \/ (area = "outside" /\ between)) THEN NA
     ELSE FillFrom(P, k, lo, hi, limit, dir)

\* daily readings at fixed hours as an hourly series: col[j][d] is read at hour[j] of day d
Readings(hour, col, n) ==
  [k \in 1..(24 * n) |->
     LET h == (k - 1) % 24
         d == ((k - 1) \div 24) + 1
         J == {j \in 1..Len(hour) : hour[j] = h}
     IN IF J = {} THEN NA ELSE col[CHOOSE j \in J : TRUE][d]]
=============================================================================
