-------------------------- MODULE CascadeValueTrace -------------------------
(* C28: histories on real cascade statistics objects.  e.see are the values  *)
(* of all objects after the operation, e.eq and e.ne the answers of == and   *)
(* # for every pair (scale 2^20).                                            *)
EXTENDS TraceKit, CascadeValue

One == 1048576
SizeOK(v) == /\ DOMAIN v = Fields /\ Len(v.p01) = 8 /\ Len(v.p10) = 8 /\ Len(v.pxx) = 8 /\ Len(v.wxx) = 56
             /\ Len(v.percentile) = 1 /\ \A f \in Fields : AllVals(v[f])
Close(x, y) == \A f \in Fields : Len(x[f]) = Len(y[f]) /\ \A i \in 1..Len(x[f]) : Near(x[f][i], y[f][i], 4)
\* the built-in sample is a set of probabilities: splits of a class add up to one and so do its weights
IsProbability(v) == /\ \A f \in Tables : \A i \in 1..Len(v[f]) : v[f][i] >= 0 /\ v[f][i] <= One
                    /\ \A c \in 1..8 : Near(v.p01[c] + v.p10[c] + v.pxx[c], One, 20)
                    /\ \A c \in 1..8 : Near(Sum([k \in 1..7 |-> v.wxx[8 * (k - 1) + c]]), One, 20)
Answers(e, pool) ==
  Req("== tells whether all parts are the same",
      \A i \in 1..Len(pool), j \in 1..Len(pool) : e.eq[i][j] = (IF Close(pool[i], pool[j]) THEN 1 ELSE 0))
  \cup Req("!= is the opposite of ==", \A i \in 1..Len(pool), j \in 1..Len(pool) : e.ne[i][j] = 1 - e.eq[i][j])
\* copies: the same, one number a little more, a little less, the same, one threshold less
NudgeAnswer == <<1, 0, 0, 1, 0>>
Judge(e) ==
  IF e.exc # "" THEN {"operation failed"}
  ELSE IF e.op = "nudge" THEN
       Req("== sees the smallest difference", e.eq = NudgeAnswer)
       \cup Req("!= is the opposite of ==", \A i \in 1..Len(e.eq) : e.ne[i] = 1 - e.eq[i])
  ELSE IF \E i \in 1..Len(e.see) : ~SizeOK(e.see[i]) THEN {"shape of the tables"}
  ELSE IF e.op = "new" THEN
       Req("new objects hold no probabilities", \A i \in 1..Len(e.fresh.wxx) : e.fresh.wxx[i] = 0
             /\ \A f \in {"p01", "p10", "pxx"} : \A k \in 1..8 : e.fresh[f][k] = 0)
       \cup Req("the sample is a set of probabilities", IsProbability(e.sample))
       \cup Req("the sample is the built-in one", \A f \in Tables : \A i \in 1..Len(SampleTables[f]) : Near(e.sample6[f][i], SampleTables[f][i], 1))
       \cup Req("new objects have the default thresholds",
                Len(e.fresh6.threshold) = 5 /\ \A i \in 1..5 : Near(e.fresh6.threshold[i], DefaultThreshold[i], 1))
       \cup Req("new objects have the default percentile", e.fresh6.percentile = <<1000000 * DefaultPercentile>>)
       \cup Answers(e, e.see)
  ELSE LET want == Effect(st.pool, e.o, st.sample, e.by)
       IN Req("objects hold the expected values", \A i \in 1..Len(want) : Close(e.see[i], want[i]))
          \cup Answers(e, e.see)
          \cup Req("objects of the caller stay as they are", e.kept = 1)
Init == Start([pool |-> <<>>, sample |-> <<>>])
Next == More /\ CASE Cur.op = "crash" -> Consume(st, {})
                  [] Cur.op = "new" -> Consume([pool |-> Cur.see, sample |-> Cur.sample], Judge(Cur))
                  [] Cur.op = "nudge" -> Consume(st, Judge(Cur))
                  [] OTHER -> Consume([st EXCEPT !.pool = Cur.see], Judge(Cur))
=============================================================================
