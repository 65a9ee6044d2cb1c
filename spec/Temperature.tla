----------------------------- MODULE Temperature ----------------------------
(* Hourly temperatures from daily minimum, maximum and mean.  Temperatures   *)
(* are scaled by 10^4 (K), times of day by 10^4 (h), courses by 10^6.        *)
EXTENDS Trig, Interp, FiniteSets, TLC

(* ---------------------- hours of minimum and maximum -------------------- *)
\* rounding to full hours; a value on the edge may go either way
RoundH(x) == {RDiv(x - 3, 10000), RDiv(x + 3, 10000)}
\* possible <<hour of minimum, hour of maximum>> for a day
Locs(mmt, sunrise, noon, delta) ==
  CASE mmt = "fix" -> {<<7, 14>>}
    [] mmt = "sun_loc" -> {<<a, b + 2>> : a \in RoundH(sunrise), b \in RoundH(noon)}
    [] mmt = "sun_loc_shift" ->
         UNION {{<<a, IF a > b THEN c + 2 ELSE b>> : a \in RoundH(sunrise), b \in RoundH(noon + delta)}
                : c \in RoundH(noon)}

(* ------------------------------ cosine course ---------------------------- *)
\* cosine (10^6) of the standard course and of the night-time modification
CosStd(h, M) == CosPi(h - M, 12)
CosNight(h, m, M) ==
  IF h >= M THEN CosPi(h - M, 24 - (M - m))
  ELSE IF h <= m THEN CosPi(24 - M + h, 24 - (M - m))
  ELSE CosPi(5 * (M - m) + 3 * (h - m), 4 * (M - m))

\* minimum and maximum the course of hour h swings between
LowOf(tmin, d, h, M)  == IF h < M \/ d = Len(tmin) THEN tmin[d] ELSE tmin[d + 1]
HighOf(tmax, d, h, m) == IF h < m /\ d > 1 THEN tmax[d - 1] ELSE tmax[d]

Swing(lo, hi, c) == lo + MulDiv(hi - lo, M6 + c, 2 * M6)
MinMax(tmin, tmax, d, h, m, M, night) ==
  LET lo == LowOf(tmin, d, h, M)
      hi == HighOf(tmax, d, h, m)
  IN IF IsNA(lo) \/ IsNA(hi) THEN NA
     ELSE Swing(lo, hi, IF night THEN CosNight(h, m, M) ELSE CosStd(h, M))
MeanRange(mean, tmin, tmax, d, h, M) ==
  IF IsNA(mean[d]) \/ IsNA(tmin[d]) \/ IsNA(tmax[d]) THEN NA
  ELSE mean[d] + MulDiv(tmax[d] - tmin[d], CosStd(h, M), 2 * M6)

(* ------------------------------ mean courses ----------------------------- *)
\* course[h+1] of the month, 0..10^6
CourseMinMax(tmin, tmax, d, c) ==
  IF IsNA(tmin[d]) \/ IsNA(tmax[d]) THEN NA ELSE tmin[d] + MulDiv(tmax[d] - tmin[d], c, M6)
CourseMean(mean, tmin, tmax, d, course, h) ==
  IF IsNA(mean[d]) \/ IsNA(tmin[d]) \/ IsNA(tmax[d]) THEN NA
  ELSE mean[d] + MulDiv(tmax[d] - tmin[d], course[h + 1] - RDiv(Sum(course), 24), M6)

(* ------------------------------ polar night ------------------------------ *)
PolarDay(dlen) == dlen < 30000
\* average of minimum and maximum has not fallen since the day before
Warming(tmin, tmax, d) ==
  LET b == IF d = 1 THEN 1 ELSE d - 1
  IN ~IsNA(tmin[b]) /\ ~IsNA(tmax[b]) /\ ~IsNA(tmin[d]) /\ ~IsNA(tmax[d])
     /\ tmin[b] + tmax[b] <= tmin[d] + tmax[d]
\* known readings on the days of a spell and the two days next to it (NA = to be interpolated).
\* base(d, h): the normal course; loc[d] = <<m, M>>
Anchor(base, pol, tmin, tmax, loc, k) ==
  LET d == (k \div 24) + 1
      h == k % 24
      N == Len(tmin)
      back == d > 1 /\ pol[d - 1]      \* first normal day after a spell
      ahead == d < N /\ pol[d + 1]     \* last normal day before a spell
  IN IF pol[d]
     THEN CASE h = 6  -> IF Warming(tmin, tmax, d) THEN tmin[d] ELSE tmax[d]
            [] h = 18 -> IF Warming(tmin, tmax, d) THEN tmax[d] ELSE tmin[d]
            [] OTHER -> NA
     ELSE IF ahead /\ h > loc[d][2] THEN NA
     ELSE IF back /\ h < loc[d][1] THEN NA
     ELSE IF back /\ h = loc[d][1] THEN tmin[d]
     ELSE base[k + 1]
InSpell(pol, d) == pol[d] \/ (d > 1 /\ pol[d - 1]) \/ (d < Len(pol) /\ pol[d + 1])

\* the whole series: interpolated inside the stretches of spell days, the normal course elsewhere
PolarCourse(base, pol, loc, tmin, tmax) ==
  LET N == Len(tmin)
      in == TLCEval([d \in 1..N |-> InSpell(pol, d)])
      P == TLCEval([k \in 1..(24 * N) |-> IF in[((k - 1) \div 24) + 1] THEN Anchor(base, pol, tmin, tmax, loc, k - 1) ELSE base[k]])
      lo == TLCEval([d \in 1..N |-> IF ~in[d] THEN d ELSE
               CHOOSE a \in 1..d : (\A x \in a..d : in[x]) /\ (a = 1 \/ ~in[a - 1])])
      hi == TLCEval([d \in 1..N |-> IF ~in[d] THEN d ELSE
               CHOOSE b \in d..N : (\A x \in d..b : in[x]) /\ (b = N \/ ~in[b + 1])])
  IN [k \in 1..(24 * N) |-> LET d == ((k - 1) \div 24) + 1 IN
        IF ~in[d] THEN base[k]
        ELSE IF IsNA(tmin[d]) \/ IsNA(tmax[d]) THEN NA
        ELSE Fill(P, k, 24 * (lo[d] - 1) + 1, 24 * hi[d], 23)]
=============================================================================
