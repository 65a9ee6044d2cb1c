------------------------------ MODULE AbsenceMC -----------------------------
(* All ways of writing down a series of N days; replayed.                    *)
EXTENDS Absence
CONSTANTS N
VARIABLES kind
Init == kind \in [1..N -> {"value", "missing"}]
Forget(d) == kind[d] = "missing" /\ d \notin {1, N} /\ kind' = [kind EXCEPT ![d] = "absent"]
Write(d) == kind[d] = "absent" /\ kind' = [kind EXCEPT ![d] = "missing"]
Next == \E d \in 1..N : Forget(d) \/ Write(d)
SameKnowledge == [][Known(kind') = Known(kind)]_kind
Ends == Listed(kind)[1] = 1 /\ Listed(kind)[Len(Listed(kind))] = N
Ascending == \A i \in 1..(Len(Listed(kind)) - 1) : Listed(kind)[i] < Listed(kind)[i + 1]
KnownListed == Known(kind) \subseteq {Listed(kind)[i] : i \in 1..Len(Listed(kind))}
FilledKnows == Known(Filled(kind)) = Known(kind) /\ Len(Listed(Filled(kind))) = N
\* a result that depends on what is known gives the same values for all ways of writing
Result(K) == LET days == Listed(K) IN [i \in 1..Len(days) |-> IF days[i] \in Known(K) THEN days[i] ELSE 0]
Eq(a, b) == a = b
Agree == SameResult(kind, Result(Filled(kind)), Result(kind), 1, Eq)
=============================================================================
