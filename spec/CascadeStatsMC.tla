--------------------------- MODULE CascadeStatsMC --------------------------
(* Design model of the estimation: a scanner reads the observations pair by  *)
(* pair and keeps counts; it must agree with the declarative definitions of  *)
(* CascadeStats and satisfy the counting identities for every short series.  *)
EXTENDS CascadeStats
CONSTANTS N, Values, Thr1000
VARIABLES obs, j, nb, ns
vars == <<obs, j, nb, ns>>
Zero == [b \in 1..2 |-> [y \in 1..4 |-> 0]]
Init == obs \in [1..N -> Values] /\ j = 1 /\ nb = Zero /\ ns = [s \in {FIRST, 1, SECOND} |-> Zero]
P == [i \in 1..(N \div 2) |-> obs[2 * i - 1] + obs[2 * i]]
\* the type follows from the neighbouring pairs only
ScanType == LET prev == IF j = 1 THEN 0 ELSE P[j - 1]
                next == IF j = N \div 2 THEN 0 ELSE P[j + 1]
            IN IF prev > 0 THEN (IF next > 0 THEN ENCLOSED ELSE ENDING) ELSE (IF next > 0 THEN STARTING ELSE ISOLATED)
Scan == /\ j <= N \div 2
        /\ j' = j + 1 /\ obs' = obs
        /\ IF P[j] = 0 THEN UNCHANGED <<nb, ns>>
           ELSE LET b == IF 1000 * P[j] > Thr1000 THEN 2 ELSE 1
                    s == IF obs[2*j] = 0 THEN FIRST ELSE IF obs[2*j-1] = 0 THEN SECOND ELSE 1
                IN /\ nb' = [nb EXCEPT ![b][ScanType] = @ + 1]
                   /\ ns' = [ns EXCEPT ![s][b][ScanType] = @ + 1]
Next == Scan
Identities == \A b \in 1..2, y \in 1..4 : nb[b][y] = ns[FIRST][b][y] + ns[1][b][y] + ns[SECOND][b][y]
Agreement == (j > N \div 2) =>
   LET cls == Classes(obs, Pairs(obs), Thr1000)
   IN \A b \in 1..2, y \in 1..4 : /\ nb[b][y] = NB(cls, b, y)
                                  /\ \A s \in {FIRST, 1, SECOND} : ns[s][b][y] = NS(cls, b, y, s)
                                  /\ LET nx == NS(cls, b, y, 1)
                                     IN SumRange([k \in 1..7 |-> NWlo(cls, b, y, k)], 1, 7) <= nx
                                        /\ SumRange([k \in 1..7 |-> NWhi(cls, b, y, k)], 1, 7) >= nx
\* the median lies between smallest and largest, and a starting box is followed by a wet one
PercentileSane == (j > N \div 2 /\ Positive(Pairs(obs)) # <<>>) =>
   LET w == Positive(Pairs(obs)) IN
   \A pc \in {0, 125, 250, 333, 500, 750, 1000} : Percentile1000(w, pc) >= 1000 * SeqMin(w) /\ Percentile1000(w, pc) <= 1000 * SeqMax(w)
=============================================================================
