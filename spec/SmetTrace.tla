------------------------------ MODULE SmetTrace -----------------------------
(* C20: recorded SMET files and what was read from them.                     *)
EXTENDS TraceKit, Smet

\* times are minutes since a fixed midnight
Stamp(mode, m) == IF mode = "d" THEN m - (m % 1440) ELSE m
Kept(e) == Written(e.cols, e.val, e.check = 1)
Write(e) ==
  IF e.exc # "" THEN {"writing failed"}
  ELSE LET w == TLCEval(Kept(e))
           f == e.file
       IN Req("signature and sections", f.shape = 1)
          \cup Req("header entries of the caller", \A i \in 1..Len(e.meta) : \E k \in 1..Len(f.header) : f.header[k] = e.meta[i])
          \cup Req("field names", f.fields = <<"timestamp">> \o [j \in 1..Len(w) |-> FieldOf(e.mode, e.cols[w[j]])])
          \cup Req("unit multipliers are one", f.mult = [j \in 1..(Len(w) + 1) |-> 10000])
          \cup Req("a row per timestamp", f.stamps = [i \in 1..Len(e.times) |-> Stamp(e.mode, e.times[i])])
          \cup (IF Len(f.tokens) # Len(e.times) \/ \E i \in 1..Len(f.tokens) : Len(f.tokens[i]) # Len(w) THEN {"a value per field"} ELSE
               Req("values with two decimals",
                  \A i \in 1..Len(e.times), j \in 1..Len(w) : f.tokens[i][j] \in Tokens(e.val[w[j]][i])))
Read(e) ==
  IF e.exc # "" THEN {"reading failed"}
  ELSE LET f == e.file
           n == Len(f.fields) - 1
       IN Req("header entries", \A k \in 1..Len(f.header) : \E i \in 1..Len(e.header) : e.header[i] = f.header[k])
          \cup Req("column names", e.cols = [j \in 1..n |-> NameOf(e.mode, f.fields[j + 1])])
          \cup Req("timestamps", e.times = f.stamps)
          \cup (IF Len(e.val) # n \/ \E j \in 1..n : Len(e.val[j]) # Len(f.stamps) THEN {"a value per token"} ELSE
               Req("values", \A j \in 1..n, i \in 1..Len(f.stamps) :
                    Same(e.val[j][i], Value(f.tokens[i][j], f.mult[j + 1]), 1)))
\* the frame that was written and the one read back
Round(e) ==
  IF e.exc # "" THEN {"round trip failed"}
  ELSE LET w == TLCEval(Kept(e))
       IN Req("same columns", e.rcols = [j \in 1..Len(w) |-> e.cols[w[j]]])
          \cup Req("same timestamps", e.rtimes = [i \in 1..Len(e.times) |-> Stamp(e.mode, e.times[i])])
          \cup (IF Len(e.rval) # Len(w) \/ \E j \in 1..Len(w) : Len(e.rval[j]) # Len(e.times) THEN {"same shape"} ELSE
               Req("same values up to two decimals", \A j \in 1..Len(w), i \in 1..Len(e.times) :
                    IF IsNA(e.val[w[j]][i]) THEN IsNA(e.rval[j][i]) ELSE IsVal(e.rval[j][i]) /\ Near(e.rval[j][i], e.val[w[j]][i], 51)))
          \cup Req("header entries of the caller", \A i \in 1..Len(e.meta) : \E k \in 1..Len(e.header) : e.header[k] = e.meta[i])
          \cup Req("frame of the caller unchanged", e.input = 1)
Judge(e) == CASE e.op = "write" -> Write(e)
              [] e.op = "read" -> Read(e)
              [] e.op = "round" -> Round(e)
              [] OTHER -> {"unknown event"}
Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur))
=============================================================================
