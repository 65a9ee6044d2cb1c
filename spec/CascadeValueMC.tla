--------------------------- MODULE CascadeValueMC ---------------------------
(* All short histories on two objects with one cell per table; replayed.     *)
EXTENDS CascadeValue, TLC, Json
CONSTANTS Depth
VARIABLES pool, hist, done
vars == <<pool, hist, done>>
Obj == {1, 2}
Value(n) == [p01 |-> <<n>>, p10 |-> <<n>>, pxx |-> <<n>>, wxx |-> <<n>>, threshold |-> <<8>>, percentile |-> <<50>>]
Sample == [p01 |-> <<3>>, p10 |-> <<5>>, pxx |-> <<7>>, wxx |-> <<9>>]
Unit == 64
Ops == {[op |-> x, i |-> i, j |-> j] : x \in {"add", "rebuild"}, i \in Obj, j \in Obj}
       \cup {[op |-> x, i |-> i, j |-> i] : x \in {"double", "half", "sample"}, i \in Obj}
       \cup {[op |-> "tweak", i |-> i, j |-> i, f |-> f, c |-> 1] : i \in Obj, f \in Fields}
Init == pool = [i \in Obj |-> Value(Unit)] /\ hist = <<>> /\ done = FALSE
Step == Len(hist) < Depth /\ done' = FALSE /\ \E o \in Ops :
          /\ ~(o.op = "rebuild" /\ o.i = o.j)
          /\ pool' = Effect(pool, o, Sample, Unit) /\ hist' = Append(hist, o)
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<pool, hist>>
Next == Step \/ Finish
(* laws *)
Equivalence == /\ \A i \in Obj : EqualValue(pool[i], pool[i])
               /\ EqualValue(pool[1], pool[2]) = EqualValue(pool[2], pool[1])
Commutes == EqualValue([Plus(pool[1], pool[2]) EXCEPT !.threshold = <<0>>, !.percentile = <<0>>],
                       [Plus(pool[2], pool[1]) EXCEPT !.threshold = <<0>>, !.percentile = <<0>>])
MeanOfEqual == \A i \in Obj : EqualValue(Scaled(Plus(pool[i], pool[i]), 1, 2), pool[i])
DoubleIsSum == \A i \in Obj : EqualValue(Scaled(pool[i], 2, 1), Plus(pool[i], pool[i]))
Tells == \A i \in Obj, f \in Fields : ~EqualValue(pool[i], Tweaked(pool[i], f, 1, 1))
Last == hist'[Len(hist')]
OtherKept == [][hist' # hist => \A k \in Obj \ {Last.i} : pool'[k] = pool[k]]_vars
Emit == done => PrintT("HIST " \o ToJson(hist))
=============================================================================
