------------------------------ MODULE StationMC -----------------------------
(* All histories of operations up to a length (or random longer ones), the   *)
(* laws they obey, and their export for replay into the real code.           *)
EXTENDS Station, TLC, Json
CONSTANTS Alphabet, Depth, Start
VARIABLES w, hist, done
vars == <<w, hist, done>>

Op(x, who) == x @@ [who |-> who]
Set(name, V) == {[op |-> name, v |-> v] : v \in V}
Cal(G) == {[op |-> "cal", g |-> g] : g \in G}
Dis(var, M) == {[op |-> "dis", var |-> var, m |-> m] : m \in M}
AllDis == UNION {Dis(v, Methods[v]) : v \in Columns}
Plain(N) == {[op |-> n] : n \in N}
Bad(K) == {[op |-> "bad", v |-> k] : k \in K}

Alphabets ==
  [ core |-> Set("daily", {1, 2}) \cup Set("lat", {2}) \cup Set("tz", {2}) \cup Set("stats", {2}) \cup Cal({"temp", "wind"})
             \cup Dis("temp", {"sine_shift", "sine_fix"}) \cup Dis("hum", {"minimal"}) \cup Dis("wind", {"cosine"})
             \cup Dis("glob", {"pot_rad"}) \cup Dis("precip", {"cascade"}),
    full |-> Set("daily", {1, 2}) \cup Set("lon", {0, 1, 2}) \cup Set("lat", {1, 2}) \cup Set("tz", {0, 1, 2}) \cup Set("stats", {1, 2})
             \cup Set("obs", {1, 2}) \cup Plain({"swap", "interpolate"}) \cup Cal(Groups) \cup AllDis,
    again |-> Set("daily", {2}) \cup Set("lon", {2}) \cup Set("lat", {2}) \cup Set("tz", {2}) \cup Set("stats", {2}) \cup Set("obs", {2})
             \cup Plain({"swap"}) \cup Cal(Groups),
    share |-> Set("daily", {2}) \cup Set("stats", {2}) \cup Cal({"wind", "radfit"}) \cup Dis("temp", {"sine_mean_sun"})
             \cup Dis("wind", {"equal", "cosine"}) \cup Dis("glob", {"via_ssd"}) \cup Plain({"scribble", "edit"}) \cup Set("lat", {2}),
    clone |-> Set("daily", {2}) \cup Set("lat", {2}) \cup Set("stats", {2}) \cup Set("obs", {2}) \cup Plain({"scribble", "edit", "swap"})
             \cup Cal(Groups) \cup Dis("temp", {"sine_shift"}) \cup Dis("hum", {"category"}) \cup Dis("precip", {"cascade"}) \cup Dis("glob", {"via_bc"}),
    isolate |-> Set("daily", {1, 2}) \cup Set("lon", {1, 2}) \cup Set("tz", {1, 2}) \cup Set("stats", {1, 2}) \cup Set("obs", {1, 2})
             \cup Plain({"scribble", "interpolate", "json", "swap", "edit"}) \cup Cal(Groups) \cup AllDis,
    json |-> Set("stats", {1, 2}) \cup Plain({"reload", "json"}) \cup Cal(Groups)
             \cup Dis("temp", {"sine_shift", "course_mean"}) \cup Dis("hum", {"regression", "category"}) \cup Dis("wind", {"cosine"})
             \cup Dis("glob", {"via_bc", "course"}) \cup Dis("precip", {"cascade"}),
    jsonlong |-> Set("stats", {1, 2}) \cup Set("obs", {1, 2}) \cup Set("daily", {1, 2}) \cup Plain({"reload", "json", "swap"}) \cup Cal(Groups) \cup AllDis ]
TwoStations == Alphabet \in {"share", "clone", "isolate"}
BadOps == 1..24
Ops == IF TwoStations
       THEN {Op(x, k) : x \in Alphabets[Alphabet], k \in {1, 2}} \cup {Op([op |-> "copy"], 1)}
            \cup {Op(x, 1) : x \in IF Alphabet \in {"share", "clone"} THEN Bad({1, 3, 9, 12, 19, 20, 23}) ELSE Bad(BadOps)}
       ELSE {Op(x, 1) : x \in Alphabets[Alphabet]}

\* where histories start: an empty station, one with data and statistics, or one with everything done
Calibrated == <<Op([op |-> "daily", v |-> 1], 1), Op([op |-> "stats", v |-> 1], 1), Op([op |-> "cal", g |-> "temp"], 1),
                Op([op |-> "cal", g |-> "hum"], 1), Op([op |-> "cal", g |-> "wind"], 1), Op([op |-> "cal", g |-> "seasons"], 1),
                Op([op |-> "cal", g |-> "radfit"], 1)>>
Prefix ==
  CASE Start = "empty" -> <<>>
    [] Start = "ready" -> <<Op([op |-> "daily", v |-> 1], 1), Op([op |-> "stats", v |-> 1], 1)>>
    [] Start = "calibrated" -> Calibrated
    [] Start = "cloned" -> Calibrated \o <<Op([op |-> "dis", var |-> "temp", m |-> "sine_shift"], 1),
                                          Op([op |-> "dis", var |-> "precip", m |-> "cascade"], 1), Op([op |-> "copy"], 1)>>
    [] Start = "used" -> <<Op([op |-> "daily", v |-> 1], 1), Op([op |-> "stats", v |-> 1], 1), Op([op |-> "cal", g |-> "wind"], 1),
                           Op([op |-> "dis", var |-> "temp", m |-> "sine_fix"], 1), Op([op |-> "dis", var |-> "hum", m |-> "minimal"], 1),
                           Op([op |-> "dis", var |-> "wind", m |-> "cosine"], 1)>>
    [] Start = "copied" -> <<Op([op |-> "daily", v |-> 1], 1), Op([op |-> "stats", v |-> 1], 1), Op([op |-> "cal", g |-> "wind"], 1),
                             Op([op |-> "dis", var |-> "temp", m |-> "sine_fix"], 1), Op([op |-> "dis", var |-> "wind", m |-> "cosine"], 1),
                             Op([op |-> "copy"], 1)>>
RECURSIVE Run(_, _)
Run(x, ops) == IF ops = <<>> THEN <<>> ELSE LET y == Apply(x, Head(ops))
  IN <<[o |-> Head(ops), ok |-> Accept(x, Head(ops)), w |-> y]>> \o Run(y, Tail(ops))
Zero == NewWorld(<<1, 1, 1>>)
Init == /\ hist = Run(Zero, Prefix)
        /\ w = IF hist = <<>> THEN Zero ELSE hist[Len(hist)].w
        /\ done = FALSE
Step == /\ Len(hist) < Len(Prefix) + Depth
        /\ done' = FALSE
        /\ \E o \in Ops :
             /\ o.who \in Judged(w)
             /\ w' = Apply(w, o)
             /\ hist' = Append(hist, [o |-> o, ok |-> Accept(w, o), w |-> Apply(w, o)])
Finish == Len(hist) = Len(Prefix) + Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<w, hist>>
Next == Step \/ Finish

(* --------------------------------- laws ---------------------------------- *)
\* all results of a station belong to its current daily data
Current == \A k \in {1, 2} : \A c \in Columns : w.s[k].col[c] # None => w.s[k].col[c].d = w.s[k].daily
\* one operation touches one station, and a disaggregation only its own column
Last == hist'[Len(hist')].o
Moved == hist' # hist
OwnColumn == [][Moved => (Last.op = "dis" => \A c \in Columns \ {Last.var} : w'.s[Last.who].col[c] = w.s[Last.who].col[c])]_vars
OwnStation == [][Moved => (\A k \in {1, 2} : (k # Last.who /\ Last.op # "copy") => w'.s[k] = w.s[k])]_vars
ResultsKept == [][Moved => (Last.op \in {"cal", "stats", "obs", "lon", "lat", "tz", "swap", "reload", "bad", "scribble"}
                   => \A k \in {1, 2} : w'.s[k].col = w.s[k].col)]_vars
StatsKept == [][Moved => (Last.op \in {"dis", "daily", "lon", "lat", "tz", "bad", "scribble"} => \A k \in {1, 2} : w'.s[k].st = w.s[k].st)]_vars
Rejected == [][Moved => (~hist'[Len(hist')].ok => w' = w)]_vars
\* repeating a disaggregation gives the same column, unless it uses a changed input
Repeat == \A k \in {1, 2} : \A c \in Columns : \A m \in Methods[c] :
   Accept(w, [op |-> "dis", var |-> c, m |-> m, who |-> k])
     => LET a == Apply(w, [op |-> "dis", var |-> c, m |-> m, who |-> k])
            b == Apply(a, [op |-> "dis", var |-> c, m |-> m, who |-> k])
        IN a = b
Emit == done => PrintT("HIST " \o ToJson(hist))
=============================================================================
