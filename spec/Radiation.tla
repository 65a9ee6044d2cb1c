------------------------------ MODULE Radiation -----------------------------
(* Daily radiation models and their hourly course.  Radiation is in 10^-4    *)
(* W/m2, temperatures in 10^-4 K, sunshine in 10^-4 h, day length in units   *)
(* of 1/500000 h, model parameters scaled by 10^4.                           *)
EXTENDS Fix, FiniteSets, TLC

(* ----------------------------- hourly course ----------------------------- *)
\* pot: the 24 potential values of a day, g: daily mean radiation
PotMean(pot) == RDiv(Sum(pot), 24)
Hour(p, mean, g) == IF IsNA(g) THEN NA ELSE IF mean = 0 THEN 0 ELSE MulDiv(p, g, mean)
DROP == 100                          \* values below 0.01 become zero

(* ------------------------------ Angstroem -------------------------------- *)
Angstroem(a, b, ssd, dlen, mean) ==
  IF dlen = 0 THEN 0
  ELSE IF IsNA(ssd) THEN NA
  ELSE MulDiv(mean, 100 * a + MulDiv(5000 * b, ssd, dlen), M6)

(* --------------------------- Bristow-Campbell ---------------------------- *)
\* twice the temperature range: 2 tmax - tmin - tmin of the next day
Range2(tmin, tmax, d) ==
  LET nx == IF d = Len(tmin) THEN tmin[d] ELSE tmin[d + 1]
  IN IF IsNA(tmin[d]) \/ IsNA(tmax[d]) \/ IsNA(nx) THEN NA ELSE (tmax[d] - tmin[d]) + (tmax[d] - nx)
RECURSIVE SumOf(_, _)
SumOf(s, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN s[i] + SumOf(s, S \ {i})
\* mean range (10^-6 K) of a month's known days
MonthRange(r2, month, m) ==
  LET S == {d \in 1..Len(r2) : month[d] = m /\ ~IsNA(r2[d])}
  IN IF S = {} THEN NA ELSE 50 * RDiv(SumOf(r2, S), Cardinality(S))
\* transmissivity without the factor A (10^6); r2: twice the range, mr: the month's mean, c: exponent
BCShare(r2, mr, c) ==
  IF r2 <= 0 THEN 0
  ELSE LET x == -3324236 - MulDiv(154, mr, 1000) + MulDiv(c, Ln(50 * r2), 10000)
       IN IF x > 2600000 THEN M6 ELSE M6 - Exp(-Exp(x))
BristowCampbell(a, c, r2, mr, mean) ==
  IF IsNA(r2) THEN NA ELSE MulDiv(mean, MulDiv(a, BCShare(r2, mr, c), 10000), M6)
=============================================================================
