-------------------------- MODULE WeatherFilesTrace -------------------------
(* C21: recorded readings of KNMI and DWD files.                             *)
EXTENDS TraceKit, WeatherFiles

\* e.rec[i] = <<y, m, d, hh, T, RH, Q, U, FH, SQ>>; e.out[i] = <<y, m, d, h, temp, ..., ssd>>
RecTime(r) == KnmiTime(<<r[1], r[2], r[3]>>, r[4])
Row(r) == RecTime(r) \o [k \in 1..6 |-> Knmi(KnmiVars[k], r[4 + k])]
RowIs(o, w) == /\ \A k \in 1..4 : o[k] = w[k]
               /\ \A k \in 5..10 : Same(o[k], w[k], 1)
KnmiRead(e) ==
  IF e.exc # "" THEN {"reading failed"}
  ELSE IF Len(e.out) # Len(e.rec) THEN {"every record exactly once"}
  ELSE LET w == TLCEval([i \in 1..Len(e.rec) |-> Row(e.rec[i])])
       IN IF e.merged = 1
          THEN Req("chronological", \A i \in 2..Len(e.out) : LaterEq(e.out[i], e.out[i - 1]))
               \cup Req("every record at its time", \A i \in 1..Len(w) : \E j \in 1..Len(e.out) : RowIs(e.out[j], w[i]))
               \cup Req("nothing else", \A j \in 1..Len(e.out) : \E i \in 1..Len(w) : RowIs(e.out[j], w[i]))
          ELSE Req("every record at its time", \A i \in 1..Len(w) : RowIs(e.out[i], w[i]))
       \cup Req("columns", e.cols = KnmiVars)

\* e.files: sequence of [fields, rows], a row = <<y, m, d, h>> \o values (10^4, -999 missing); the reader
\* sees all rows but the last if asked to skip it
Rows(e, f) == IF e.skip = 1 THEN SubSeq(f.rows, 1, Len(f.rows) - 1) ELSE f.rows
Known(f) == {j \in 1..Len(f.fields) : f.fields[j] \in DOMAIN DwdName}
Key(r) == <<r[1], r[2], r[3], r[4]>>
DwdRead(e) ==
  IF e.exc # "" THEN {"reading failed"}
  ELSE LET F == 1..Len(e.files)
           times == UNION {{Key(Rows(e, e.files[i])[k]) : k \in 1..Len(Rows(e, e.files[i]))} : i \in F}
           names == UNION {{DwdName[e.files[i].fields[j]] : j \in Known(e.files[i])} : i \in F}
           outt == {Key(e.out[k]) : k \in 1..Len(e.out)}
       IN Req("documented columns only", {e.cols[j] : j \in 1..Len(e.cols)} = names /\ Len(e.cols) = Cardinality(names))
          \cup Req("every record exactly once at its time", outt = times /\ Len(e.out) = Cardinality(times))
          \cup (IF {e.cols[j] : j \in 1..Len(e.cols)} # names \/ outt # times THEN {} ELSE
               Req("values and units",
                 \A j \in 1..Len(e.cols), k \in 1..Len(e.out) :
                   LET i == CHOOSE x \in F : \E a \in Known(e.files[x]) : DwdName[e.files[x].fields[a]] = e.cols[j]
                       a == CHOOSE x \in Known(e.files[i]) : DwdName[e.files[i].fields[x]] = e.cols[j]
                       R == Rows(e, e.files[i])
                       S == {x \in 1..Len(R) : Key(R[x]) = Key(e.out[k])}
                   IN IF S = {} THEN IsNA(e.out[k][4 + j])
                      ELSE Same(e.out[k][4 + j], Dwd(e.cols[j], R[CHOOSE x \in S : TRUE][4 + a]), 1)))
          \cup Req("station data of the latest entry", e.header = e.meta)
Judge(e) == CASE e.op = "knmi" -> KnmiRead(e)
              [] e.op = "dwd" -> DwdRead(e)
              [] OTHER -> {"unknown event"}
Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur))
=============================================================================
