---------------------------- MODULE CascadeStats ---------------------------
(* Estimation of the cascade statistics from observations: boxes are paired  *)
(* level by level; every wet pair is one observed split.                     *)
EXTENDS CascadeBox, TLC

\* pairs of boxes; an odd box at the end is dropped
Pairs(s) == TLCEval([j \in 1..(Len(s) \div 2) |-> s[2 * j - 1] + s[2 * j]])
WetOf(s) == TLCEval([j \in 1..Len(s) |-> IF s[j] > 0 THEN 1 ELSE 0])
Positive(s) == TLCEval(SelectSeq(s, LAMBDA x : x > 0))

\* the k-th smallest element of a sequence (k from 1)
Kth(s, k) == CHOOSE x \in {s[i] : i \in 1..Len(s)} :
                /\ Cardinality({i \in 1..Len(s) : s[i] < x}) < k
                /\ Cardinality({i \in 1..Len(s) : s[i] <= x}) >= k
\* percentile with linear interpolation, in thousandths of the unit; pc: percentile in tenths
Percentile1000(s, pc) ==
  LET h  == (Len(s) - 1) * pc
      lo == Kth(s, (h \div 1000) + 1)
      hi == IF h % 1000 = 0 THEN lo ELSE Kth(s, (h \div 1000) + 2)
  IN 1000 * lo + (h % 1000) * (hi - lo)

(* Weight classes: k (1..7) if the first half holds between (k-1)/7 and k/7. *)
(* The documented bounds are rounded to four digits, so a weight closer than *)
(* 10^-4 to a bound may be counted on either side.                           *)
Ppm(a, b) == MulDiv(a, M6, a + b)
Bound == <<0, 142900, 285700, 428600, 571400, 714300, 857100, 1000000>>
InClass(r, k)    == r > Bound[k] + 120 - (IF k = 1 THEN 120 ELSE 0) /\ r <= Bound[k + 1] - (IF k = 7 THEN 0 ELSE 120)
MayInClass(r, k) == r > Bound[k] - 120 /\ r <= Bound[k + 1] + 120

(* Statistics of one level.  cls[j] describes wet pair j of the boxes s:     *)
(* <<intensity, type, split, weight ppm>>.                                   *)
Classes(s, p, thr1000) ==
  LET wet == WetOf(p)
  IN TLCEval([j \in 1..Len(p) |->
       IF p[j] = 0 THEN <<0, 0, 0, 0>>
       ELSE LET a == s[2 * j - 1]
                b == s[2 * j]
            IN <<IF 1000 * p[j] > thr1000 THEN 2 ELSE 1, BoxType(wet, j),
                 IF b = 0 THEN FIRST ELSE IF a = 0 THEN SECOND ELSE 1,
                 IF a > 0 /\ b > 0 THEN Ppm(a, b) ELSE 0>>])
NB(cls, b, y) == Cardinality({j \in 1..Len(cls) : cls[j][1] = b /\ cls[j][2] = y})
NS(cls, b, y, s) == Cardinality({j \in 1..Len(cls) : cls[j][1] = b /\ cls[j][2] = y /\ cls[j][3] = s})
\* number of divided boxes certainly / possibly in weight class k
NWlo(cls, b, y, k) == Cardinality({j \in 1..Len(cls) : cls[j][1] = b /\ cls[j][2] = y /\ cls[j][3] = 1 /\ InClass(cls[j][4], k)})
NWhi(cls, b, y, k) == Cardinality({j \in 1..Len(cls) : cls[j][1] = b /\ cls[j][2] = y /\ cls[j][3] = 1 /\ MayInClass(cls[j][4], k)})

\* built-in sample statistics (ppm), used when a class is empty
Sample == [
  p01 |-> << <<576725, 238723, 166532, 393475>>, <<303345, 49096, 39240, 228442>> >>,
  p10 |-> << <<158217, 256581, 557852, 422638>>, <<43983, 47493, 303675, 217512>> >>,
  pxx |-> << <<265058, 504696, 275616, 183887>>, <<652672, 903412, 657084, 554046>> >>,
  w |-> << << <<188389, 80684, 69811, 62150>>, <<240993, 83102, 41513, 155285>> >>,
           << <<190129, 129221, 93221, 193081>>, <<196380, 108549, 59271, 42195>> >>,
           << <<163044, 152064, 102824, 90603>>, <<186579, 189706, 99021, 107831>> >>,
           << <<197766, 220046, 177876, 261289>>, <<123823, 220515, 102486, 101976>> >>,
           << <<114435, 170858, 177327, 135363>>, <<93921, 174292, 125276, 150843>> >>,
           << <<98868, 152323, 185607, 167243>>, <<76028, 127276, 202466, 186580>> >>,
           << <<47369, 94805, 193333, 90272>>, <<82275, 96561, 369966, 255291>> >> >>]

Ratio(c, n) == MulDiv(c, M6, n)

(* The table of a level: interval bounds lo/hi (ppm) for every probability.  *)
Table(s, p, thr1000) ==
  LET cls == Classes(s, p, thr1000)
      nb == TLCEval([b \in 1..2 |-> [y \in 1..4 |-> NB(cls, b, y)]])
      nx == TLCEval([b \in 1..2 |-> [y \in 1..4 |-> NS(cls, b, y, 1)]])
  IN IF \E b \in 1..2, y \in 1..4 : nb[b][y] = 0
     THEN [p01 |-> Sample.p01, p10 |-> Sample.p10, pxx |-> Sample.pxx, wlo |-> Sample.w, whi |-> Sample.w]
     ELSE TLCEval(
      [p01 |-> [b \in 1..2 |-> [y \in 1..4 |-> Ratio(NS(cls, b, y, SECOND), nb[b][y])]],
       p10 |-> [b \in 1..2 |-> [y \in 1..4 |-> Ratio(NS(cls, b, y, FIRST), nb[b][y])]],
       pxx |-> [b \in 1..2 |-> [y \in 1..4 |-> Ratio(nx[b][y], nb[b][y])]],
       wlo |-> [k \in 1..7 |-> [b \in 1..2 |-> [y \in 1..4 |->
                  IF nx[b][y] = 0 THEN 142857 ELSE Ratio(NWlo(cls, b, y, k), nx[b][y])]]],
       whi |-> [k \in 1..7 |-> [b \in 1..2 |-> [y \in 1..4 |->
                  IF nx[b][y] = 0 THEN 142857 ELSE Ratio(NWhi(cls, b, y, k), nx[b][y])]]]])

ZeroTable == [p01 |-> [b \in 1..2 |-> [y \in 1..4 |-> 0]], p10 |-> [b \in 1..2 |-> [y \in 1..4 |-> 0]],
              pxx |-> [b \in 1..2 |-> [y \in 1..4 |-> 0]],
              wlo |-> [k \in 1..7 |-> [b \in 1..2 |-> [y \in 1..4 |-> 0]]],
              whi |-> [k \in 1..7 |-> [b \in 1..2 |-> [y \in 1..4 |-> 0]]]]
\* acc + T * n / total
AddW(acc, T, n, total) ==
  LET f(a, x) == a + MulDiv(x, n, total)
  IN TLCEval([p01 |-> [b \in 1..2 |-> [y \in 1..4 |-> f(acc.p01[b][y], T.p01[b][y])]],
      p10 |-> [b \in 1..2 |-> [y \in 1..4 |-> f(acc.p10[b][y], T.p10[b][y])]],
      pxx |-> [b \in 1..2 |-> [y \in 1..4 |-> f(acc.pxx[b][y], T.pxx[b][y])]],
      wlo |-> [k \in 1..7 |-> [b \in 1..2 |-> [y \in 1..4 |-> f(acc.wlo[k][b][y], T.wlo[k][b][y])]]],
      whi |-> [k \in 1..7 |-> [b \in 1..2 |-> [y \in 1..4 |-> f(acc.whi[k][b][y], T.whi[k][b][y])]]]])

Req1(name, cond) == IF cond THEN {} ELSE {name}
\* observed table O (p01, p10, pxx, w) against the specified T
TableBad(O, T, tol) ==
  IF \E b \in 1..2, y \in 1..4 : ~IsVal(O.p01[b][y]) \/ ~IsVal(O.p10[b][y]) \/ ~IsVal(O.pxx[b][y])
                                 \/ \E k \in 1..7 : ~IsVal(O.w[k][b][y])
  THEN {"probabilities are defined"}
  ELSE UNION {
      Req1("frequency of second-half splits", Near(O.p01[b][y], T.p01[b][y], tol))
      \cup Req1("frequency of first-half splits", Near(O.p10[b][y], T.p10[b][y], tol))
      \cup Req1("frequency of divided splits", Near(O.pxx[b][y], T.pxx[b][y], tol))
      \cup Req1("frequency of weight classes", \A k \in 1..7 :
              O.w[k][b][y] >= T.wlo[k][b][y] - tol /\ O.w[k][b][y] <= T.whi[k][b][y] + tol)
      \cup Req1("split probabilities sum to one", Near(O.p01[b][y] + O.p10[b][y] + O.pxx[b][y], M6, 3))
      \cup Req1("weight probabilities sum to one", Near(SumRange([k \in 1..7 |-> O.w[k][b][y]], 1, 7), M6, 5))
      : b \in 1..2, y \in 1..4}
=============================================================================
