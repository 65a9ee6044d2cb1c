----------------------------- MODULE SeasonTrace ---------------------------
(* C06: a station with statistics for several seasons.  The specified result *)
(* is built season by season (state: the hourly series so far, all missing   *)
(* at first) and compared with what the station produced.                    *)
EXTENDS TraceKit, CascadeRun

\* shift of a series by k steps, filled with missing values
Shifted(s, k) == TLCEval([i \in 1..Len(s) |-> IF (i - k) \in 1..Len(s) THEN s[i - k] ELSE NA])

Overlay(out, e, days, month) ==
  LET M  == {e.months[i] : i \in 1..Len(e.months)}
      ix == TLCEval(SelectSeq([d \in 1..Len(days) |-> d], LAMBDA d : month[d] \in M))
      v  == TLCEval([i \in 1..Len(ix) |-> IF IsNA(days[ix[i]]) THEN 0 ELSE days[ix[i]]])
      h  == Hours(v, e.tabs, e.thr)
      hm == TLCEval([k \in 1..Len(h) |-> IF IsNA(days[ix[((k - 1) \div 24) + 1]]) THEN NA ELSE h[k]])
      hs == Shifted(hm, e.shift)
      pos == [d \in {ix[i] : i \in 1..Len(ix)} |-> CHOOSE i \in 1..Len(ix) : ix[i] = d]
  IN IF Len(ix) < 2 THEN out
     ELSE TLCEval([k \in 1..Len(out) |-> LET d == ((k - 1) \div 24) + 1
                                         IN IF month[d] \in M THEN hs[24 * (pos[d] - 1) + ((k - 1) % 24) + 1] ELSE out[k]])

Step(e) ==
  LET tr == Traces[t] IN
  CASE e.op = "start"  -> Consume([out |-> [k \in 1..(24 * Len(tr.days)) |-> NA]], {})
    [] e.op = "season" -> Consume([out |-> Overlay(st.out, e, tr.days, tr.month)], {})
    [] e.op = "result" -> Consume(st,
          IF e.exc # "" THEN {"call failed"}
          ELSE IF Len(e.out) # Len(st.out) THEN {"number of hours"}
          ELSE Req("hours without a value", \A k \in 1..Len(st.out) : IsNA(e.out[k]) = IsNA(st.out[k]))
               \cup Req("season uses its own statistics",
                  \A k \in 1..Len(st.out) : IsNA(e.out[k]) \/ IsNA(st.out[k]) \/
                      (IsVal(e.out[k]) /\ Near(e.out[k], st.out[k], 60 + tr.maxday \div 1000))))
    [] e.op = "subset" -> Consume(st,
          IF e.exc # "" THEN {"call failed"}
          ELSE Req("the rows of the months, in order",
                   e.rows = SelectSeq([d \in 1..Len(e.month) |-> d], LAMBDA d : \E i \in 1..Len(e.months) : e.months[i] = e.month[d])))
    [] OTHER -> Consume(st, {"unknown event"})

Init == Start([out |-> <<>>])
Next == More /\ Step(Cur)
=============================================================================
