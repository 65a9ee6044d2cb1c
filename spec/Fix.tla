-------------------------------- MODULE Fix --------------------------------
(* Fixed-point arithmetic for the MELODIST specification.                    *)
(* TLC integers are 32 bit, so quantities are scaled integers and products   *)
(* that may exceed 2^31 go through MulDiv.                                   *)
EXTENDS Integers, Sequences

NA  == -2000000000      \* a missing value (NaN)
BIG ==  2000000000      \* infinite or outside the representable range
M6  == 1000000

IsNA(x)  == x = NA
IsVal(x) == x > -1950000000 /\ x < 1950000000

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Near(a, b, tol) == Abs(a - b) <= tol
\* a and b denote the same reading: both missing, or both present and close
Same(a, b, tol) == IF IsNA(a) \/ IsNA(b) THEN a = b
                   ELSE IsVal(a) /\ IsVal(b) /\ Near(a, b, tol)

\* truncating (towards zero) and rounding division, divisor > 0
TDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
RDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -(((-a) + b \div 2) \div b)

(* MulDiv(a,b,c) = a*b/c truncated towards zero, for 0 < c <= 16 000 000 and *)
(* a result below 2^31; the intermediate product may be arbitrarily large.   *)
RECURSIVE MDq(_, _, _)
MDq(r, b, c) ==    \* 0 <= r < c, b >= 0 : <<(r*b) \div c, (r*b) % c>>
  IF b < 64 THEN <<(r * b) \div c, (r * b) % c>>
  ELSE LET h == MDq(r, b \div 64, c)
           s == 64 * h[2] + r * (b % 64)
       IN <<64 * h[1] + (s \div c), s % c>>
MulDivN(a, b, c) == IF a < 46000 /\ b < 46000 THEN (a * b) \div c
                    ELSE (a \div c) * b + MDq(a % c, b, c)[1]
MulDiv(a, b, c) == LET r == MulDivN(Abs(a), Abs(b), c)
                   IN IF (a < 0) = (b < 0) THEN r ELSE -r

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE SumTo(s, n - 1) + s[n]
Sum(s) == SumTo(s, Len(s))
RECURSIVE SumRange(_, _, _)
SumRange(s, a, b) == IF a > b THEN 0 ELSE s[a] + SumRange(s, a + 1, b)

SeqMin(s) == LET R == {s[i] : i \in 1..Len(s)} IN CHOOSE x \in R : \A y \in R : x <= y
SeqMax(s) == LET R == {s[i] : i \in 1..Len(s)} IN CHOOSE x \in R : \A y \in R : x >= y

(* exp(x) for x scaled by 10^6, result scaled by 10^6, -13 <= x < 7          *)
ExpInt == [n \in -14..7 |->
   CASE n = -14 -> 1 [] n = -13 -> 2 [] n = -12 -> 6 [] n = -11 -> 17 [] n = -10 -> 45
     [] n = -9 -> 123 [] n = -8 -> 335 [] n = -7 -> 912 [] n = -6 -> 2479 [] n = -5 -> 6738
     [] n = -4 -> 18316 [] n = -3 -> 49787 [] n = -2 -> 135335 [] n = -1 -> 367879
     [] n = 0 -> 1000000 [] n = 1 -> 2718282 [] n = 2 -> 7389056 [] n = 3 -> 20085537
     [] n = 4 -> 54598150 [] n = 5 -> 148413159 [] n = 6 -> 403428793 [] n = 7 -> 1096633158]
RECURSIVE ExpTaylor(_, _, _)
ExpTaylor(f, term, n) == IF n > 11 \/ term = 0 THEN 0
   ELSE LET nx == MulDivN(term, f, M6) \div n IN nx + ExpTaylor(f, nx, n + 1)
Exp(x) == IF x < -14000000 THEN 0
          ELSE IF x >= 7000000 THEN BIG
          ELSE LET n == x \div M6      \* floor
                   f == x % M6
                   e == M6 + ExpTaylor(f, M6, 1)
               IN MulDivN(ExpInt[n], e, M6)
(* natural logarithm of x > 0, both scaled by 10^6                           *)
RECURSIVE LnNorm(_, _), LnSeries(_, _, _, _)
LnNorm(m, k) ==    \* <<mantissa in [M6, 2*M6), exponent>>
  IF m >= 2 * M6 THEN LnNorm(m \div 2, k + 1)
  ELSE IF m < M6 THEN LnNorm(2 * m, k - 1) ELSE <<m, k>>
LnSeries(z2, term, n, acc) == IF n > 15 \/ term = 0 THEN acc
  ELSE LnSeries(z2, MulDivN(term, z2, M6), n + 2, acc + term \div n)
Ln(x) == LET nk == LnNorm(x, 0)
             z == MulDivN(nk[1] - M6, M6, nk[1] + M6)
         IN 693147 * nk[2] + 2 * LnSeries(MulDivN(z, z, M6), z, 1, 0)

(* square root of y >= 0, both scaled by 10^6, y <= 16*10^6                  *)
RECURSIVE RootBis(_, _, _)
RootBis(y, lo, hi) == IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF MulDivN(m, m, M6) <= y THEN RootBis(y, m, hi) ELSE RootBis(y, lo, m)
Sqrt6(y) == IF y <= 0 THEN 0 ELSE RootBis(y, 0, 4000001)
=============================================================================
