------------------------------ MODULE WindowMC ------------------------------
(* All windows of N days reached by cutting days off either end; replayed.   *)
EXTENDS Window
CONSTANTS N
VARIABLES m, a, b
vars == <<m, a, b>>
Init == m \in WindowMethods /\ a = 1 /\ b = N
CutFront == a < b /\ a' = a + 1 /\ UNCHANGED <<m, b>>
CutBack == a < b /\ b' = b - 1 /\ UNCHANGED <<m, a>>
Next == CutFront \/ CutBack
Month == [d \in 1..N |-> 1]
Inside == m # "pot_rad_via_bc" => \A d \in (a + 1)..(b - 1) : \A h \in 0..23 : Kept(m, a, b, d, h, N, Month)
\* the whole series is a window in which everything stays
Whole == (a = 1 /\ b = N) => \A d \in 1..N, h \in 0..23 : Kept(m, a, b, d, h, N, Month)
\* methods that look at one day only keep all days of any window
OwnDay == (\A d \in 1..N, h \in 0..23 : \A x \in Uses(m, d, h, N) : x[2] = d) =>
          \A d \in a..b, h \in 0..23 : Kept(m, a, b, d, h, N, Month)
\* a smaller window never keeps an hour a larger one loses, except at the ends of the whole series
Shrinks == [][\A d \in a'..b', h \in 0..23 : Kept(m, a', b', d, h, N, Month) => Kept(m, a, b, d, h, N, Month)]_vars
=============================================================================
