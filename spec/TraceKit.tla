------------------------------ MODULE TraceKit ------------------------------
(* Common part of all trace specifications: the traces recorded from the     *)
(* real code are read from the JSON file named by TRACE_FILE.  Every trace   *)
(* is one initial state; every step consumes one event.  An event that the   *)
(* specification does not allow moves to a state whose "bad" names the       *)
(* violated clauses, so a verdict is total and says what failed.             *)
EXTENDS Fix, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, l, st, bad       \* trace, next event, component state, violated clauses
tvars == <<t, l, st, bad>>

Req(name, cond) == IF cond THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
Ev == Traces[t].ev
Cur == Traces[t].ev[l]

Start(s) == /\ t \in 1..Len(Traces) /\ l = 1 /\ st = s /\ bad = {}
More == l <= Len(Traces[t].ev) /\ bad = {}
\* consume the current event: new component state s, violated clauses b
Consume(s, b) == /\ l' = l + 1 /\ t' = t /\ st' = s
                 /\ bad' = IF Cur.op = "crash" THEN {"crash"} ELSE b
Crash == More /\ Cur.op = "crash" /\ Consume(st, {"crash"})
Accepted == bad = {}
AllVals(s) == \A i \in 1..Len(s) : IsVal(s[i])
AllNA(s) == \A i \in 1..Len(s) : IsNA(s[i])
ValOrNA(x) == IsNA(x) \/ IsVal(x)
=============================================================================
