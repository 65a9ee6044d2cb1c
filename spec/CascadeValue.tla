---------------------------- MODULE CascadeValue ----------------------------
(* Cascade statistics as values: a pool of objects that are added, scaled,   *)
(* rebuilt from their dictionary, changed in one cell, filled with the       *)
(* built-in sample and compared.  A value is a record of flat tables; table  *)
(* entries are scaled integers.                                              *)
EXTENDS Integers, Sequences, FiniteSets

Tables == {"p01", "p10", "pxx", "wxx"}
Fields == Tables \cup {"threshold", "percentile"}
\* sums and multiples concern the tables, not the thresholds
Plus(x, y) == [f \in Fields |-> IF f \in Tables THEN [i \in 1..Len(x[f]) |-> x[f][i] + y[f][i]] ELSE x[f]]
Scaled(x, a, b) == [f \in Fields |-> IF f \in Tables THEN [i \in 1..Len(x[f]) |-> (x[f][i] * a) \div b] ELSE x[f]]
Tweaked(x, f, i, by) == [x EXCEPT ![f] = [@ EXCEPT ![i] = @ + by]]
EqualValue(x, y) == \A f \in Fields : x[f] = y[f]

(* Operations: o.i is the object acted on, o.j the other one.                *)
Effect(pool, o, sample, by) ==
  CASE o.op = "add"    -> [pool EXCEPT ![o.i] = Plus(pool[o.i], pool[o.j])]
    [] o.op = "double" -> [pool EXCEPT ![o.i] = Scaled(@, 2, 1)]
    [] o.op = "half"   -> [pool EXCEPT ![o.i] = Scaled(@, 1, 2)]
    [] o.op = "rebuild" -> [pool EXCEPT ![o.i] = pool[o.j]]
    [] o.op = "tweak"  -> [pool EXCEPT ![o.i] = Tweaked(@, o.f, o.c, by)]
    [] o.op = "sample" -> [pool EXCEPT ![o.i] = [f \in Fields |-> IF f \in Tables THEN sample[f] ELSE @[f]]]
    [] OTHER -> pool
\* built-in statistics (10^6): below the threshold starting, enclosed, ending, isolated, then above
SampleTables == [
  p01 |-> <<576725, 238723, 166532, 393475, 303345, 49096, 39240, 228442>>,
  p10 |-> <<158217, 256581, 557852, 422638, 43983, 47493, 303675, 217512>>,
  pxx |-> <<265058, 504696, 275616, 183887, 652672, 903412, 657084, 554046>>,
  wxx |-> <<
    188389, 80684, 69811, 62150, 240993, 83102, 41513, 155285,
    190129, 129221, 93221, 193081, 196380, 108549, 59271, 42195,
    163044, 152064, 102824, 90603, 186579, 189706, 99021, 107831,
    197766, 220046, 177876, 261289, 123823, 220515, 102486, 101976,
    114435, 170858, 177327, 135363, 93921, 174292, 125276, 150843,
    98868, 152323, 185607, 167243, 76028, 127276, 202466, 186580,
    47369, 94805, 193333, 90272, 82275, 96561, 369966, 255291>>]
\* boxes of 1.5, 3, 6, 12 and 24 hours
DefaultThreshold == <<1670931, 2466944, 3667309, 5398784, 8049245>>
DefaultPercentile == 50
=============================================================================
