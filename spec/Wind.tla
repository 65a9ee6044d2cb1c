-------------------------------- MODULE Wind --------------------------------
(* Hourly wind speed: daily means in 10^-4 m/s, a and b scaled by 10^4,      *)
(* t_shift in 10^-4 h.                                                       *)
EXTENDS Trig, FiniteSets
Equal(w) == w
\* factor (10^6) applied to the daily mean at hour h
CosFactor(h, a, b, shift) == MulDiv(a, CosU((HOUR \div 10000) * (10000 * h - shift)), 10000) + 100 * b
Cosine(w, h, a, b, shift) == IF IsNA(w) THEN NA ELSE MulDiv(w, CosFactor(h, a, b, shift), M6)
(* Random factors (-ln u)^0.3: the share below y^0.3 is 1 - exp(-y).         *)
\* <<threshold of the factor, probability not to exceed it>>, both 10^6
Quantiles == <<<<501187, M6 - Exp(-100000)>>, <<812252, M6 - Exp(-500000)>>, <<1000000, M6 - Exp(-1000000)>>,
               <<1231144, M6 - Exp(-2000000)>>, <<1390389, M6 - Exp(-3000000)>>>>
\* count of n samples agrees with probability p (10^6) within six standard deviations (and rounding)
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF hi - lo <= 1 THEN hi ELSE LET m == (lo + hi) \div 2 IN IF m * m < x THEN Root(x, m, hi) ELSE Root(x, lo, m)
Sigma6(n, p) == Root(36 * (MulDiv(MulDiv(n, p, M6), M6 - p, M6) + 1), 0, 40000) + 2
Plausible(count, n, p) == Near(count, MulDiv(n, p, M6), Sigma6(n, p))
=============================================================================
