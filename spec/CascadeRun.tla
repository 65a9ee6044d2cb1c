----------------------------- MODULE CascadeRun ----------------------------
(* The cascade as a function: with statistics that leave exactly one split   *)
(* per class the result is determined.  Volumes are integers; the weights    *)
(* are the class centres, so a result is exact up to about 10^-4.            *)
EXTENDS CascadeBox, TLC

OnlySplit(T, b, y) == IF T.p01[b][y] = M6 THEN SECOND ELSE IF T.p10[b][y] = M6 THEN FIRST
                      ELSE CHOOSE k \in 1..7 : T.w[k][b][y] = M6
FirstHalf(v, s) == CASE s = FIRST -> v [] s = SECOND -> 0 [] OTHER -> MulDiv(v, WeightPpm[s], M6)
RunLevel(v, T, thr) ==
  LET wet == TLCEval([i \in 1..Len(v) |-> IF v[i] > 0 THEN 1 ELSE 0])
      fst == TLCEval([i \in 1..Len(v) |-> IF v[i] = 0 THEN 0
                       ELSE FirstHalf(v[i], OnlySplit(T, Intensity(v[i], thr), BoxType(wet, i)))])
  IN TLCEval([k \in 1..(2 * Len(v)) |-> LET i == (k + 1) \div 2
                                        IN IF k % 2 = 1 THEN fst[i] ELSE v[i] - fst[i]])
\* tables and thresholds are listed from the finest level to the coarsest
RECURSIVE RunFrom(_, _, _, _)
RunFrom(v, tabs, thr, j) == IF j = 0 THEN v
                            ELSE RunFrom(RunLevel(v, tabs[j], thr[j]), tabs, thr, j - 1)
Run(v, tabs, thr) == RunFrom(v, tabs, thr, Len(thr))
Hours(v, tabs, thr) == LET b == Run(v, tabs, thr)
                       IN TLCEval([h \in 1..(24 * Len(v)) |-> RDiv(Hour3(b, h), 3)])
=============================================================================
