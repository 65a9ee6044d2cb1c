-------------------------------- MODULE Smet --------------------------------
(* SMET files: frames of hourly or daily values as text tables.  Values of a *)
(* frame are scaled by 10^4; a token of the file has two decimals (10^2).    *)
EXTENDS Fix, FiniteSets

NODATA == -99900
Daily  == [tmean |-> "TA", tmin |-> "TMIN", tmax |-> "TMAX", precip |-> "PSUM", glob |-> "ISWR", hum |-> "RH", wind |-> "VW"]
Hourly == [temp |-> "TA", precip |-> "PSUM", glob |-> "ISWR", hum |-> "RH", wind |-> "VW"]
Map(mode) == IF mode = "d" THEN Daily ELSE Hourly
\* names without a SMET field are kept
FieldOf(mode, name) == IF name \in DOMAIN Map(mode) THEN Map(mode)[name] ELSE name
NameOf(mode, field) == IF \E n \in DOMAIN Map(mode) : Map(mode)[n] = field
                       THEN CHOOSE n \in DOMAIN Map(mode) : Map(mode)[n] = field ELSE field

(* A frame: cols[j] the names, val[j][i] the value of column j in row i.     *)
Empty(col) == \A i \in 1..Len(col) : IsNA(col[i])
\* positions of the columns that are written
Written(cols, val, check) == SelectSeq([j \in 1..Len(cols) |-> j], LAMBDA j : ~check \/ ~Empty(val[j]))
\* two decimals; exactly half a hundredth may go either way
Tokens(v) == IF IsNA(v) THEN {NODATA} ELSE {RDiv(v - 1, 100), RDiv(v + 1, 100)}
\* reading a token with the unit multiplier (10^4) of its column
Value(tok, mult) == IF tok = NODATA THEN NA ELSE MulDiv(tok, mult, 100)
=============================================================================
