------------------------------ MODULE MissingMC -----------------------------
(* All masks with at most K missing cells over N days, for every method.     *)
(* The reachable states are replayed into the real code.                     *)
EXTENDS Missing
CONSTANTS N, K
VARIABLES m, mask
vars == <<m, mask>>
Init == m \in Methods /\ mask = {}
Lose == \E c \in Columns(m), d \in 1..N :
           /\ Cardinality(mask) < K /\ <<c, d>> \notin mask
           /\ mask' = mask \cup {<<c, d>>} /\ m' = m
Next == Lose
\* missing values stay local: an hour is only lost through its own or an adjacent day
Local == \A d \in 1..N, h \in 0..23 : HourMissing(m, mask, d, h, N) => \E x \in mask : x[2] \in (d - 1)..(d + 1)
\* a day whose own and neighbouring values exist is complete
Complete == \A d \in 1..N : (\A x \in mask : x[2] \notin (d - 1)..(d + 1)) => \A h \in 0..23 : ~HourMissing(m, mask, d, h, N)
\* nothing is invented: methods without neighbours lose the whole day
WholeDay == m \notin {"sine_min_max", "sine_min_max_night", "hum_category"} =>
   \A x \in mask : \A h \in 0..23 : HourMissing(m, mask, x[2], h, N)
\* losing more never brings an hour back
Monotone == [][\A d \in 1..N, h \in 0..23 : HourMissing(m, mask, d, h, N) => HourMissing(m, mask', d, h, N)]_vars
=============================================================================
