----------------------------- MODULE AggregateMC ----------------------------
(* Hourly frames with any first hour, length and one gap, and every day      *)
(* start: what trimming to complete days means, and the cases replayed.      *)
EXTENDS Aggregate, TLC
CONSTANTS Firsts, Lengths, Shifts, GapAts, GapLens
VARIABLE c
Init == \E f \in Firsts, n \in Lengths, s \in Shifts, g \in GapAts, w \in GapLens :
          /\ (g = 0) = (w = 0) /\ (g < n \/ g = 0)
          /\ c = [first |-> f, n |-> n, shift |-> s, at |-> g, wide |-> w]
Next == UNCHANGED c
\* the gap comes after row `at` and leaves out `wide` hours
Times == [i \in 1..c.n |-> 60 * (c.first + i - 1 + (IF c.at > 0 /\ i > c.at THEN c.wide ELSE 0))]
Laws ==
  LET T == TLCEval(Times)
      K == TLCEval(Kept(T, c.shift))
      lo == CHOOSE x \in K : \A y \in K : x <= y
      hi == CHOOSE x \in K : \A y \in K : x >= y
  IN /\ K # {} => /\ StartsDay(T[lo], c.shift) /\ EndsDay(T[hi], c.shift) /\ K = lo..hi
                  /\ \A i \in 1..(lo - 1) : ~StartsDay(T[i], c.shift)
                  /\ \A i \in (hi + 1)..c.n : ~EndsDay(T[i], c.shift)
     /\ Gaps(T, 60) = (IF c.at > 0 THEN 1 ELSE 0)
     \* without a gap only complete days remain, and every complete day remains
     /\ c.at = 0 => /\ Cardinality(K) % 24 = 0
                    /\ Cardinality(K) = 24 * Cardinality({i \in 1..c.n : StartsDay(T[i], c.shift) /\ i + 23 <= c.n})
=============================================================================
