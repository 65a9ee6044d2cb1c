------------------------------- MODULE Season ------------------------------
(* Seasons: every day belongs to the season(s) listing its month; seasons    *)
(* are processed in order, each on its own days only.  Abstract model: the   *)
(* result of a day is the set of things it was computed from.                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Months, NDays, NSeasons
Missing == <<>>
VARIABLES month, season, k, res
vars == <<month, season, k, res>>
\* month of every day (non-decreasing blocks), month set of every season
Init == /\ month \in {f \in [1..NDays -> Months] : \A d \in 1..(NDays - 1) : f[d + 1] \in {f[d], (f[d] % Cardinality(Months)) + 1}}
        /\ season \in {s \in [1..NSeasons -> SUBSET Months] : \A i, j \in 1..NSeasons : i # j => s[i] \cap s[j] = {}}
        /\ k = 0
        /\ res = [d \in 1..NDays |-> Missing]
DaysOf(i) == {d \in 1..NDays : month[d] \in season[i]}
Process == /\ k < NSeasons /\ k' = k + 1
           /\ res' = IF Cardinality(DaysOf(k + 1)) < 2 THEN res
                     ELSE [d \in 1..NDays |-> IF d \in DaysOf(k + 1) THEN <<k + 1, DaysOf(k + 1)>> ELSE res[d]]
           /\ UNCHANGED <<month, season>>
Next == Process
Done == k = NSeasons
OwnStatistics == Done => \A d \in 1..NDays : res[d] # Missing =>
                   month[d] \in season[res[d][1]] /\ \A x \in res[d][2] : month[x] \in season[res[d][1]]
NoSeasonNoValue == Done => \A d \in 1..NDays : (\A i \in 1..NSeasons : month[d] \notin season[i]) => res[d] = Missing
Covered == Done => \A i \in 1..NSeasons : Cardinality(DaysOf(i)) >= 2 => \A d \in DaysOf(i) : res[d] # Missing
=============================================================================
