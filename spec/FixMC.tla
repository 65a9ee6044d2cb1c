-------------------------------- MODULE FixMC -------------------------------
(* Self check of the fixed-point functions: identities on a grid of values.  *)
EXTENDS Trig
VARIABLE k
Init == k = 0
Next == k < 400 /\ k' = k + 1
X == 20000 * k - 5000000                   \* -5 .. 3
ExpLn == k > 0 => Near(Ln(Exp(X)), X, 14 + (IF X < 0 THEN (6 * M6) \div Exp(X) ELSE 0))
ExpAdd == Near(MulDiv(Exp(X), Exp(1000000), M6), Exp(X + 1000000), 4 + (Abs(Exp(X + 1000000)) \div 200000))
Pyth == LET u == 3607 * k IN Near(MulDiv(SinU(u), SinU(u), M6) + MulDiv(CosU(u), CosU(u), M6), M6, 12)
Odd == SinU(-3607 * k) = -SinU(3607 * k)
Turn == CosU(3607 * k + TURN) = CosU(3607 * k)
RootSq == LET y == 9999 * k IN Near(MulDiv(Sqrt6(y), Sqrt6(y), M6), y, 6)
Big == Near(MulDiv(1234567 + k, 7654321, 1000003), 9449743 + MulDiv(k, 7654321, 1000003), 2)
=============================================================================
