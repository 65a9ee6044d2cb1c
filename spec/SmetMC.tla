------------------------------- MODULE SmetMC -------------------------------
(* All small frames: writing and reading back keeps names and values.        *)
EXTENDS Smet, TLC
CONSTANTS Rows
VARIABLE c
Names(mode) == IF mode = "d" THEN {"tmean", "tmin", "precip", "ssd"} ELSE {"temp", "hum", "glob", "ssd"}
Vals == {NA, 2731549, -51, 0}
Cols(mode) == {<<a>> : a \in Names(mode)} \cup {p \in Names(mode) \X Names(mode) : p[1] # p[2]}
Init == \E mode \in {"d", "h"}, check \in BOOLEAN : \E cols \in Cols(mode) :
          \E val \in [1..Len(cols) -> [1..Rows -> Vals]] : c = [mode |-> mode, check |-> check, cols |-> cols, val |-> val]
Next == UNCHANGED c
Laws ==
  LET w == Written(c.cols, c.val, c.check)
      fields == [j \in 1..Len(w) |-> FieldOf(c.mode, c.cols[w[j]])]
  IN /\ \A j \in 1..Len(w) : NameOf(c.mode, fields[j]) = c.cols[w[j]]
     /\ \A j, k \in 1..Len(w) : j # k => fields[j] # fields[k]
     \* nothing is lost but empty columns and the decimals beyond the second
     /\ \A j \in 1..Len(c.cols) : (\E k \in 1..Len(w) : w[k] = j) \/ (c.check /\ Empty(c.val[j]))
     /\ \A j \in 1..Len(w), i \in 1..Rows : \A tok \in Tokens(c.val[w[j]][i]) :
          IF IsNA(c.val[w[j]][i]) THEN IsNA(Value(tok, 10000)) ELSE Near(Value(tok, 10000), c.val[w[j]][i], 51)
=============================================================================
