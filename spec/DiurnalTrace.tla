----------------------------- MODULE DiurnalTrace ---------------------------
(* C24: statistics calibrated by the real code against the observations.     *)
EXTENDS TraceKit, Diurnal

Months(e) == {e.month[d] : d \in 1..Len(e.month)}
CourseIs(got, want, tol) == \A h \in 0..23 : Same(got[h + 1], want[h], tol)
\* months without observations have no course (all missing)
NoCourse(got) == \A h \in 1..24 : IsNA(got[h])
Course(e) ==
  IF e.exc # "" THEN {"calibration failed"}
  ELSE UNION {LET c == TLCEval(MonthCourse(e.v, e.month, m)) IN
     IF e.scaled = 0 THEN Req("mean course is the average per month and hour", CourseIs(e.course[m], c, 1))
     ELSE IF Spread(c) = 0 THEN {}
     ELSE LET s == TLCEval(ScaledCourse(c)) IN
          Req("mean course is the scaled average per month and hour", CourseIs(e.course[m], s, 3 + (2 * M6) \div Spread(c)))
          \cup Req("course spans exactly 0..1", /\ (\E h \in 1..24 : e.course[m][h] = 0)
                                               /\ (\E h \in 1..24 : e.course[m][h] = M6)
                                               /\ \A h \in 1..24 : IsNA(e.course[m][h]) \/ e.course[m][h] \in 0..M6)
     : m \in Months(e)}
     \cup UNION {Req("no course for months without observations", NoCourse(e.course[m])) : m \in (1..12) \ Months(e)}

Shifts(e) ==
  IF e.exc # "" THEN {"calibration failed"}
  ELSE LET N == Len(e.month)
           hm == TLCEval([d \in 1..N |-> HoursOfMax(e.v, d)])
           lo == TLCEval([d \in 1..N |-> IF hm[d] = {} THEN 0 ELSE CHOOSE x \in hm[d] : \A y \in hm[d] : x <= y])
           hi == TLCEval([d \in 1..N |-> IF hm[d] = {} THEN 0 ELSE CHOOSE x \in hm[d] : \A y \in hm[d] : x >= y])
           noon == TLCEval([d \in 1..N |-> Noon(e.doy[d], e.lon, e.tz)])
       IN UNION {LET days == TLCEval(SelectSeq(DaysOf(e.month, m), LAMBDA d : hm[d] # {}))
                     n == Len(days)
                 IN IF n = 0 THEN Req("no shift without observations", IsNA(e.shift[m]))
                    ELSE Req("mean distance of the maximum from solar noon",
                           /\ IsVal(e.shift[m])
                           /\ e.shift[m] >= RDiv(ShiftSum(lo, noon, days, n), n) - 5
                           /\ e.shift[m] <= RDiv(ShiftSum(hi, noon, days, n), n) + 5)
                 : m \in 1..12}

Category(e) ==
  IF e.exc # "" THEN {"calibration failed"}
  ELSE LET wet == TLCEval([d \in 1..Len(e.month) |-> Wet(e.precip, d)])
       IN UNION {LET days == TLCEval(SelectSeq(DaysOf(e.month, m), LAMBDA d : wet[d] = (w = 2)))
                 IN Req("average per month, hour and wet or dry day",
                       \A h \in 0..23 : Same(e.table[m][h + 1][w], CellMean(e.v, days, h), 1))
                 : m \in 1..12, w \in 1..2}

\* least squares: the residuals are orthogonal to the regressors
Dew(e) ==
  IF e.exc # "" THEN {"calibration failed"}
  ELSE LET N == Len(e.month)
           tn == TLCEval([d \in 1..N |-> MinDay(e.t, d)])
           td == TLCEval([d \in 1..N |-> DewDay(e.t, e.hum, d)])
           K == TLCEval(SelectSeq([d \in 1..N |-> d], LAMBDA d : ~IsNA(tn[d]) /\ ~IsNA(td[d])))
           n == Len(K)
           x == TLCEval([i \in 1..n |-> tn[K[i]] - 2800000])
           r == TLCEval([i \in 1..n |-> td[K[i]] - e.a0 - MulDiv(tn[K[i]], e.a1, M6)])
           one == [i \in 1..n |-> 10000]
       IN IF ~(IsVal(e.a0) /\ IsVal(e.a1) /\ Abs(e.a0) < 1000000000 /\ Abs(e.a1) < 300 * M6)
          THEN {"dew point regression is a line of the observed size"}
          ELSE IF \E i \in 1..n : Abs(r[i]) > 300000 THEN {"dew point regression follows the observations"}
          ELSE Req("dew point regression is unbiased", Abs(Dot(r, one, n)) <= 10 * n)
          \cup Req("dew point regression is the least-squares line", Abs(Dot(r, x, n)) <= 10 * (Dot([i \in 1..n |-> Abs(x[i])], one, n) \div 10000) + 10 * n)

WindFit(e) ==
  IF e.exc # "" THEN {"calibration failed"}
  ELSE LET N == Len(e.month)
           wd == TLCEval([d \in 1..N |-> DayMean(DayOf(e.v, d))])
           K == TLCEval(SelectSeq([k \in 1..(24 * N) |-> k], LAMBDA k : ~IsNA(e.v[k])))
           n == Len(K)
           F == TLCEval([h \in 0..23 |-> MulDiv(e.a, CosU((HOUR \div 10000) * (10000 * h - e.s)), M6) + e.b])
           C == TLCEval([h \in 0..23 |-> CosU(HOUR * h)])
           S == TLCEval([h \in 0..23 |-> SinU(HOUR * h)])
           W(i) == wd[((K[i] - 1) \div 24) + 1]
           H(i) == (K[i] - 1) % 24
           r == TLCEval([i \in 1..n |-> e.v[K[i]] - MulDiv(W(i), F[H(i)], M6)])
           w == TLCEval([i \in 1..n |-> W(i)])
           wc == TLCEval([i \in 1..n |-> MulDiv(W(i), C[H(i)], M6)])
           ws == TLCEval([i \in 1..n |-> MulDiv(W(i), S[H(i)], M6)])
           tol == 12 * RDiv(SumTo(w, n), 10000) + 20 + n
       IN Req("wind cosine is the least-squares fit",
             Abs(Dot(r, w, n)) <= tol /\ Abs(Dot(r, wc, n)) <= tol /\ Abs(Dot(r, ws, n)) <= tol)

\* a straight line through small integer points; a0, a1, r, se, p scaled by 10^4
Line(e) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE LET n == Len(e.x)
           mul(f, g) == Sum([i \in 1..n |-> f[i] * g[i]])
           Sx == Sum(e.x)
           Sy == Sum(e.y)
           Dx == n * mul(e.x, e.x) - Sx * Sx
           Dy == n * mul(e.y, e.y) - Sy * Sy
           Dxy == n * mul(e.x, e.y) - Sx * Sy
           slope == MulDiv(Dxy, 10000, Dx)
           r2 == MulDiv(slope, Dxy, Dy)
           flat == 3 + Abs(Dxy) \div Dy
       IN Req("number of results", e.short = 2 /\ e.long = 5)
          \cup Req("statistics leave the line as it is", e.same = 1)
          \cup Req("slope", IsVal(e.a1) /\ Near(e.a1, slope, 2))
          \cup Req("intercept", IsVal(e.a0) /\ Near(n * e.a0, 10000 * Sy - slope * Sx, 2 * n + Abs(Sx)))
          \cup Req("correlation", IsVal(e.r) /\ Abs(e.r) <= 10000 /\ Near(MulDiv(e.r, e.r, 10000), r2, flat) /\ (e.r = 0 \/ Dxy = 0 \/ (e.r > 0 <=> Dxy > 0)))
          \cup Req("standard error", IsVal(e.se) /\ e.se >= 0
                /\ (n > 2 => Near((n - 2) * MulDiv(e.se, e.se, 10000), MulDiv(10000 - r2, Dy, Dx), (n - 2) * (2 + e.se \div 4000) + flat * (1 + Dy \div Dx))))
          \cup Req("probability", IsVal(e.p) /\ e.p >= 0 /\ e.p <= 10000)

Judge(e) == CASE e.op = "line" -> Line(e)
              [] e.op = "course" -> Course(e)
              [] e.op = "shift" -> Shifts(e)
              [] e.op = "category" -> Category(e)
              [] e.op = "dew" -> Dew(e)
              [] e.op = "wind" -> WindFit(e)
              [] OTHER -> {"unknown event"}
Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur))
=============================================================================
