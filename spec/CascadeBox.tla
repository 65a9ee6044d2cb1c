----------------------------- MODULE CascadeBox ----------------------------
(* Boxes of the precipitation cascade: classes, splits and aggregation.      *)
EXTENDS Fix, FiniteSets

\* position classes of wet boxes (column of the statistics tables)
STARTING == 1
ENCLOSED == 2
ENDING   == 3
ISOLATED == 4

\* wet[i] = 1 iff box i holds water; the series ends at both sides in dryness
BoxType(wet, i) ==
  LET before == i > 1 /\ wet[i - 1] = 1
      after  == i < Len(wet) /\ wet[i + 1] = 1
  IN CASE ~before /\  after -> STARTING
       []  before /\  after -> ENCLOSED
       []  before /\ ~after -> ENDING
       [] ~before /\ ~after -> ISOLATED

\* row of the statistics tables: 1 = not above the threshold, 2 = above it
Intensity(v, thr) == IF v > thr THEN 2 ELSE 1

\* centre of weight class k (k = 1..7), parts per million: (2k-1)/14
WeightPpm == <<71429, 214286, 357143, 500000, 642857, 785714, 928571>>

\* splits of a wet box; 1..7 is the division with weight class k
FIRST  == 0
SECOND == 8
Splits == 0..8

(* Aggregation of the final boxes to the output time step.                   *)
\* three times hour h (1..24 per day) from 32 boxes of 45 minutes per day
Hour3(b, h) == LET q0 == 4 * (h - 1)
               IN b[(q0 \div 3) + 1] + b[((q0 + 1) \div 3) + 1]
                  + b[((q0 + 2) \div 3) + 1] + b[((q0 + 3) \div 3) + 1]
\* 5-minute bin of box i (both counted from 1 over the whole series), 2^L boxes per day
BinOf(i, perday) == (((i - 1) \div perday) * 288) + ((((i - 1) % perday) * 288) \div perday) + 1
\* the boxes (of 2^L per day) of day d that start in 5-minute step j (1..288) of the day
CeilDiv(a, b) == (a + b - 1) \div b
BinBoxes(d, j, perday) == ((d - 1) * perday + CeilDiv((j - 1) * perday, 288) + 1)
                          .. ((d - 1) * perday + CeilDiv(j * perday, 288))
ASSUME \A p \in {512, 1024, 2048} : \A i \in 1..(2 * p) :
   LET k == BinOf(i, p) IN i \in BinBoxes(((k - 1) \div 288) + 1, ((k - 1) % 288) + 1, p)
=============================================================================
