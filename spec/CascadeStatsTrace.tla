-------------------------- MODULE CascadeStatsTrace ------------------------
(* C05, C06: recorded estimations against CascadeStats.                      *)
(*   obs    the observations (units; NA = missing) and their months          *)
(*   season starts the estimation of one season: only its months enter       *)
(*   level  the next level; the recorded table, if the code reports it       *)
(*   avg    the averaged statistics                                          *)
EXTENDS TraceKit, CascadeStats

SeasonObs(e, tr) ==
  LET M == {e.months[i] : i \in 1..Len(e.months)}
      S == SelectSeq([i \in 1..Len(tr.obs) |-> <<tr.obs[i], tr.month[i]>>], LAMBDA x : x[2] \in M)
  IN TLCEval([i \in 1..Len(S) |-> IF IsNA(S[i][1]) THEN 0 ELSE S[i][1]])

RECURSIVE Lens(_, _)
Lens(n, lv) == IF lv = 0 THEN 0 ELSE (n \div 2) + Lens(n \div 2, lv - 1)

Step(e) ==
  LET tr == Traces[t] IN
  CASE e.op = "season" ->
         LET s == SeasonObs(e, tr)
         IN Consume([boxes |-> s, total |-> Lens(Len(s), e.levels), acc |-> ZeroTable, thr |-> <<>>, sum |-> 0],
                    Req("call failed", e.exc = ""))
    [] e.op = "level" ->
         LET p   == Pairs(st.boxes)
             thr == TLCEval(Percentile1000(Positive(p), tr.perc))
             T   == Table(st.boxes, p, thr)
         IN Consume([boxes |-> p, total |-> st.total, acc |-> AddW(st.acc, T, Len(p), st.total),
                     thr |-> Append(st.thr, thr), sum |-> st.sum],
                    IF e.rec = 0 THEN {}
                    ELSE Req("threshold is the percentile of the wet boxes",
                             Len(e.thr) = 1 /\ IsVal(e.thr[1]) /\ Near(e.thr[1], thr, 1))
                         \cup Req("percentile is recorded", e.perc = tr.perc)
                         \cup TableBad(e.tab, T, 3))
    [] e.op = "avg" ->
         Consume(st, Req("thresholds are the percentiles of the wet boxes",
                         Len(e.thr) = Len(st.thr) /\ \A i \in 1..Len(e.thr) : IsVal(e.thr[i]) /\ Near(e.thr[i], st.thr[i], 1))
                     \cup Req("percentile is recorded", e.perc = tr.perc)
                     \cup TableBad(e.tab, st.acc, 15))
    [] OTHER -> Consume(st, {"unknown event"})

Init == Start([boxes |-> <<>>])
Next == More /\ Step(Cur)
=============================================================================
