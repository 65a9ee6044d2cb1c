---------------------------- MODULE CascadeTrace ---------------------------
(* C04: recorded cascade runs against the Cascade model.  The events of a    *)
(* run are "start" (daily totals), one "level" per cascade level and "out"   *)
(* (the reported series).  The split of every box is inferred from the       *)
(* recorded boxes and must be one the statistics allow; the number of splits *)
(* of every kind is accumulated and compared with the probabilities.         *)
EXTENDS TraceKit, CascadeBox

UNKNOWN == 9
SplitOf(w) == IF w = 0 THEN SECOND ELSE IF w = M6 THEN FIRST
              ELSE LET K == {k \in 1..7 : Near(w, WeightPpm[k], 150)}
                   IN IF K = {} THEN UNKNOWN ELSE CHOOSE k \in K : TRUE
\* probability (ppm) of split s in table T for intensity b and type y
Prob(T, s, b, y) == CASE s = SECOND -> T.p01[b][y]
                      [] s = FIRST  -> T.p10[b][y]
                      [] s \in 1..7 -> IF T.pxx[b][y] = 0 THEN 0 ELSE T.w[s][b][y]
                      [] OTHER -> 0

LevelBad(e, T) ==
  LET n == Len(st.v)
  IN IF Len(e.v) # 2 * n \/ Len(e.wet) # 2 * n \/ Len(e.w) # n \/ Len(e.cmp) # n THEN {"boxes are halved"}
     ELSE IF ~AllVals(e.v) THEN {"finite boxes"}
     ELSE UNION {
       IF st.wet[i] = 0 THEN Req("dry box yields dry halves", e.wet[2*i-1] = 0 /\ e.wet[2*i] = 0)
       ELSE IF e.wet[2*i-1] < 0 \/ e.wet[2*i] < 0 THEN {"boxes are not negative"}
       ELSE Req("halves sum to the box", Near(e.v[2*i-1] + e.v[2*i], st.v[i], 3) /\ Near(e.w[i] + e.r[i], M6, 3))
            \cup LET s == SplitOf(e.w[i])
                     b == IF e.cmp[i] > 0 THEN 2 ELSE 1
                     y == BoxType(st.wet, i)
                 IN IF s = UNKNOWN THEN {"weight is a class centre"}
                    ELSE Req("split is possible for the class of the box", Prob(T, s, b, y) > 0)
       : i \in 1..n}

\* new counts after a level: cnt[table][b][y][split]
Count(e, T) ==
  LET n == Len(st.v)
      cls == [i \in 1..n |-> IF st.wet[i] = 0 THEN <<0>> ELSE
                <<IF e.cmp[i] > 0 THEN 2 ELSE 1, BoxType(st.wet, i), SplitOf(e.w[i])>>]
  IN [st.cnt EXCEPT ![e.tab] = [b \in 1..2 |-> [y \in 1..4 |-> [s \in 0..8 |->
        st.cnt[e.tab][b][y][s] + Cardinality({i \in 1..n : cls[i] = <<b, y, s>>})]]]]

\* observed c of n at probability p (ppm): within six standard deviations
Freq(c, n, p) ==
  LET d == 10 * c - MulDiv(10 * n, p, M6)
      v == MulDiv(MulDiv(n, p, M6), M6 - p, M6)
  IN Abs(d) < 40000 /\ d * d <= 3600 * (v + 1)

FreqBad(cnt, tabs) == UNION {
   LET T == tabs[k]
       k0 == cnt[k][b][y]
       nx == SumRange([i \in 1..7 |-> k0[i]], 1, 7)
       n  == k0[0] + k0[8] + nx
   IN Req("frequency of second-half splits", Freq(k0[8], n, T.p01[b][y]))
      \cup Req("frequency of first-half splits", Freq(k0[0], n, T.p10[b][y]))
      \cup Req("frequency of weights", \A s \in 1..7 : Freq(k0[s], nx, T.w[s][b][y]))
   : k \in 1..Len(tabs), b \in 1..2, y \in 1..4}

OutBad(e) ==
  LET nd == Len(e.missing)
      perday == Len(st.v) \div nd
      per == IF e.hourly = 1 THEN 24 ELSE 288
  IN IF Len(e.out) # nd * per THEN {"length of the result"}
     ELSE UNION {
       LET d == ((k - 1) \div per) + 1
           j == ((k - 1) % per) + 1
           x == e.out[k]
       IN IF e.missing[d] = 1 THEN Req("missing day is missing", IsNA(x))
          ELSE IF ~IsVal(x) \/ Abs(x) > 600000000 THEN {"finite result"}
          ELSE IF e.hourly = 1
          THEN Req("hour accumulates its boxes", Near(3 * x, Hour3(st.v, k), 8))
          ELSE LET B == BinBoxes(d, j, perday)
                   lo == CHOOSE i \in B : \A m \in B : i <= m
               IN Req("5-minute step accumulates its boxes", Near(x, SumRange(st.v, lo, lo + Cardinality(B) - 1), 12))
       : k \in 1..(nd * per)}

NoCounts(tabs) == [k \in 1..Len(tabs) |-> [b \in 1..2 |-> [y \in 1..4 |-> [s \in 0..8 |-> 0]]]]
Tabs == Traces[t].tabs

Step(e) ==
  CASE e.op = "start" -> Consume([v |-> e.days, wet |-> e.wet, cnt |-> NoCounts(Tabs), lev |-> 0],
                                 Req("call failed", e.exc = ""))
    [] e.op = "level" -> LET b == LevelBad(e, Tabs[e.tab])
                         IN Consume(IF b # {} THEN st ELSE
                              [v |-> e.v, wet |-> e.wet, lev |-> st.lev + 1,
                               cnt |-> IF Traces[t].freq = 1 THEN Count(e, Tabs[e.tab]) ELSE st.cnt], b)
    [] e.op = "out"   -> Consume(st, Req("number of levels", st.lev = e.levels) \cup OutBad(e))
    [] e.op = "freq"  -> Consume(st, FreqBad(st.cnt, Tabs))
    [] OTHER -> Consume(st, {"unknown event"})

Init == Start([lev |-> 0])
Next == More /\ Step(Cur)
=============================================================================
