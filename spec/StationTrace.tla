---------------------------- MODULE StationTrace ----------------------------
(* C17, C18, C19: histories of operations on real stations.  After every     *)
(* step the recorder tells how far each column, the sun times, the daily     *)
(* data and each group of statistics are from what fresh objects give for    *)
(* the token it assumed (in 1e-9).  The tokens must be the ones that this    *)
(* specification derives from the operations.                                *)
EXTENDS TraceKit, Station

TolColumn == 1000     \* 1e-6
TolStats == 1         \* 1e-9
Within(x, tol) == IsVal(x) /\ x <= tol
StatsOK(x) == /\ \A g \in {"temp", "hum", "wind", "gm", "ga"} : Within(x[g], TolStats)
              /\ x.precip = 0 /\ x.obs = 0
Step(w, e) ==
  LET o == e.o
      y == Apply(w, o)
      K == Judged(y)
      touched(k) == o.who = k \/ (o.op = "copy" /\ k = 2)
  IN Req("recorder follows the specification", e.w = y)
     \cup Req("accepted operation succeeds", Accept(w, o) => e.exc = "")
     \cup Req("impossible operation is rejected", ~Accept(w, o) => e.exc # "")
     \cup Req("objects of the caller stay as they are", e.changed = 0)
     \cup UNION {LET see == e.see.s[k] IN
            UNION {Req(IF ~touched(k) THEN "other station unchanged"
                       ELSE IF o.op = "dis" /\ o.var = c THEN "result is that of a fresh station: " \o c
                       ELSE IF o.op = "daily" THEN "new daily data clears the results"
                       ELSE "results of earlier calls stay: " \o c, Within(see.col[c], TolColumn)) : c \in Columns}
            \cup Req("hourly frame has its five columns", see.cols = 0)
            \cup Req("daily data is what was assigned", see.daily = 0)
            \cup Req("sun times match location and data", Within(see.sun, TolColumn))
            \cup Req("location is what was assigned", see.loc = 0)
            \cup UNION {Req("statistics are those of a fresh calibration: " \o g, Within(see.st[g], TolStats)) : g \in {"temp", "hum", "wind", "gm", "ga"}}
            \cup Req("cascade statistics are exactly those of a fresh calibration", see.st.precip = 0)
            \cup Req("observations are what was assigned", see.st.obs = 0)
          : k \in K}
     \cup Req("statistics kept aside stay as they are", StatsOK(e.see.spare))
     \cup (IF o.op = "reload" /\ Accept(w, o) /\ e.exc = "" THEN Req("saving loaded statistics gives an equivalent file", Within(e.resaved, TolStats)) ELSE {})

\* a function called on its own: what is handed in stays as it is, also when the call is rejected
Call(e) == Req("objects of the caller stay as they are", e.changed = 0)
           \cup Req("valid call succeeds", e.valid = 1 => e.exc = "")
           \cup Req("invalid call is rejected", e.valid = 0 => e.exc # "")
\* statistics of arbitrary observations and options, saved and loaded
Round(e) == Req("saving and loading works", e.exc = "")
            \cup (IF e.exc # "" THEN {} ELSE
               UNION {Req("loaded statistics equal the saved ones: " \o g, Within(e.st[g], TolStats)) : g \in {"temp", "hum", "wind", "gm", "ga"}}
               \cup Req("loaded cascade statistics are exactly the saved ones", e.st.precip = 0)
               \cup Req("saving loaded statistics gives an equivalent file", Within(e.resaved, TolStats))
               \cup Req("text and file are the same", e.text = 0)
               \cup Req("saving leaves the statistics as they are", e.kept = 0)
               \cup Req("loaded statistics disaggregate like the saved ones",
                        \A i \in 1..Len(e.dis) : e.dis[i][1] = e.dis[i][2] /\ (e.dis[i][1] = "" => Within(e.dis[i][3], TolColumn))))
Judge(e) == IF e.op = "call" THEN Call(e) ELSE IF e.op = "round" THEN Round(e) ELSE {"unknown event"}
Init == Start(NewWorld(<<1, 1, 1>>))
Next == More /\ CASE Cur.op = "crash" -> Consume(st, {})
                   [] Cur.op = "step" -> Consume(Apply(st, Cur.o), Step(st, Cur))
                   [] OTHER -> Consume(st, Judge(Cur))
=============================================================================
