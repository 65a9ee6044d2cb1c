---------------------------- MODULE CalendarTrace --------------------------
(* C01: the time axes the real code produces.  An axis is recorded as its    *)
(* maximal runs of consecutive hours, <<y, m, d, h, n>>.                     *)
EXTENDS TraceKit, Calendar

AxisIs(axis, runs) == Len(axis) = Len(runs) /\
   \A i \in 1..Len(axis) : /\ <<axis[i][1], axis[i][2], axis[i][3]>> = runs[i][1]
                           /\ axis[i][4] = 0 /\ axis[i][5] = runs[i][2]
\* the same for 5-minute steps: the run lengths are 288 per day
Axis5Is(axis, runs) == Len(axis) = Len(runs) /\
   \A i \in 1..Len(axis) : /\ <<axis[i][1], axis[i][2], axis[i][3]>> = runs[i][1]
                           /\ axis[i][4] = 0 /\ axis[i][5] = 12 * runs[i][2]
Columns == {"temp", "precip", "glob", "hum", "wind"}
Rng(s) == {s[i] : i \in 1..Len(s)}

Step(e) ==
  CASE e.op = "assign" ->
         Consume([days |-> e.days],
           IF e.exc # "" THEN {"assigning daily data failed"}
           ELSE Req("hourly frame has every hour of every day", AxisIs(e.axis, FrameHours(e.days)))
                \cup Req("columns of the hourly frame", Rng(e.cols) = Columns /\ Len(e.cols) = 5)
                \cup Req("frame is empty at first", e.filled = <<>>))
    [] e.op = "fill" ->
         Consume(st,
           IF e.exc # "" THEN {"disaggregation failed"}
           ELSE Req("timestamps unchanged", AxisIs(e.axis, FrameHours(st.days)))
                \cup Req("columns unchanged", Rng(e.cols) = Columns /\ Len(e.cols) = 5)
                \cup Req("only its own column is filled", Rng(e.changed) \subseteq {e.var})
                \cup Req("its column is filled", e.var \in Rng(e.filled)))
    [] e.op = "direct" ->
         Consume(st,
           IF e.exc # "" THEN {"disaggregation failed"}
           ELSE Req("exactly the hours of the listed days", AxisIs(e.axis, ListedHours(e.days))))
    [] e.op = "direct5" ->
         Consume(st,
           IF e.exc # "" THEN {"disaggregation failed"}
           ELSE Req("exactly the 5-minute steps of the listed days", Axis5Is(e.axis, ListedHours(e.days))))
    [] e.op = "index" ->       \* hourly and 5-minute indices, with or without the absent days
         Consume(st,
           IF e.exc # "" THEN {"index failed"}
           ELSE LET runs == IF e.fill THEN FrameHours(e.days) ELSE ListedHours(e.days)
                IN Req("exactly the steps of the days", IF e.per = 24 THEN AxisIs(e.axis, runs) ELSE Axis5Is(e.axis, runs)))
    [] e.op = "sublevel" ->    \* the steps of the last cascade level
         Consume(st,
           IF e.exc # "" THEN {"index failed"}
           ELSE LET days == IF e.fill THEN AllDays(e.days[1], e.days[Len(e.days)]) ELSE e.days
                IN Req("the days of the index", Len(e.rows) = Len(days) /\ \A i \in 1..Len(days) : e.rows[i][1] = days[i])
                   \cup Req("the steps of a day", \A i \in 1..Len(e.rows) :
                        Len(e.rows[i][2]) = 2 ^ e.level /\ \A k \in 1..Len(e.rows[i][2]) : e.rows[i][2][k] = SubStepSecond(k - 1, e.level)))
    [] OTHER -> Consume(st, {"unknown event"})

Init == Start([days |-> <<>>])
Next == More /\ Step(Cur)
=============================================================================
