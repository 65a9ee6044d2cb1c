------------------------------- MODULE Station ------------------------------
(* A station with its statistics, described by where everything came from.   *)
(* Data sets are numbered: daily frames, observation sets, longitudes,       *)
(* latitudes and time zones (0 = not given).  A column of the hourly frame   *)
(* is a token: the method and exactly the inputs the values were computed    *)
(* from.  Likewise a group of statistics names the observations, location    *)
(* and daily data it was calibrated with.  Two columns with the same token   *)
(* hold the same values.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

None == [m |-> "none"]
Columns == {"temp", "hum", "wind", "glob", "precip"}
NoCols == [temp |-> None, hum |-> None, wind |-> None, glob |-> None, precip |-> None]
\* temp: shift and course, hum, wind, precip, gm: mean radiation course, ga: radiation models
NewStats(o) == [obs |-> o, temp |-> None, hum |-> None, wind |-> None, precip |-> None, gm |-> None, ga |-> None]
NewStation(l) == [daily |-> 0, loc |-> l, col |-> NoCols, st |-> NewStats(0)]
Complete(l) == l[1] # 0 /\ l[2] # 0 /\ l[3] # 0
\* the sun times a station shows
Sun(s) == IF s.daily # 0 /\ Complete(s.loc) THEN [m |-> "sun", d |-> s.daily, loc |-> s.loc] ELSE None

(* ----------------------------- disaggregation ---------------------------- *)
Methods == [temp   |-> {"sine_fix", "sine_night", "sine_mean_sun", "sine_shift", "course_min_max", "course_mean"},
            hum    |-> {"equal", "minimal", "minimal_keep", "regression", "linear", "min_max", "category"},
            wind   |-> {"equal", "cosine", "random"},
            glob   |-> {"pot_rad", "via_ssd", "via_bc", "course"},
            precip |-> {"equal", "cascade", "master"}]
Token(s, var, m) ==
  LET base == [m |-> m, d |-> s.daily]
      own(g) == [m |-> m, d |-> s.daily, s |-> g]
      air == [m |-> m, d |-> s.daily, u |-> s.col.temp]
      airown(g) == [m |-> m, d |-> s.daily, u |-> s.col.temp, s |-> g]
      sun == [m |-> m, d |-> s.daily, loc |-> s.loc]
      sunown(g) == [m |-> m, d |-> s.daily, loc |-> s.loc, s |-> g]
  IN CASE m \in {"sine_fix", "sine_night", "equal", "random", "master"} -> base
       [] m \in {"course_min_max", "course_mean"} -> own(s.st.temp)
       [] m = "sine_mean_sun" -> sun
       [] m = "sine_shift" -> sunown(s.st.temp)
       [] m \in {"minimal", "minimal_keep", "min_max"} -> air
       [] m \in {"regression", "linear"} -> airown(s.st.hum)
       [] m = "category" -> own(s.st.hum)
       [] m = "cosine" -> own(s.st.wind)
       [] m = "pot_rad" -> sun
       [] m \in {"via_ssd", "via_bc"} -> sunown(s.st.ga)
       [] m = "course" -> own(s.st.gm)
       [] m = "cascade" -> own(s.st.precip)
\* what the method needs is there
Ready(s, var, m) ==
  /\ s.daily # 0
  /\ m \in {"course_min_max", "course_mean", "sine_shift"} => s.st.temp # None
  /\ m \in {"sine_mean_sun", "sine_shift"} \/ var = "glob" => Complete(s.loc)
  /\ m \in {"regression", "linear", "category"} => s.st.hum # None
  /\ m = "cosine" => s.st.wind # None
  /\ m = "course" => s.st.gm # None
  /\ m = "cascade" => s.st.precip # None

(* ------------------------------ calibration ------------------------------ *)
Groups == {"temp", "hum", "wind", "precip", "seasons", "rad", "radfit"}
CalReady(s, g) == s.st.obs # 0 /\ (g = "temp" => Complete(s.loc)) /\ (g = "radfit" => s.daily # 0 /\ Complete(s.loc))
Calibrate(s, g) ==
  CASE g = "temp" -> [s.st EXCEPT !.temp = [m |-> "temp", obs |-> s.st.obs, loc |-> s.loc]]
    [] g = "hum" -> [s.st EXCEPT !.hum = [m |-> "hum", obs |-> s.st.obs]]
    [] g = "wind" -> [s.st EXCEPT !.wind = [m |-> "wind", obs |-> s.st.obs]]
    [] g \in {"precip", "seasons"} -> [s.st EXCEPT !.precip = [m |-> g, obs |-> s.st.obs]]
    [] g = "rad" -> [s.st EXCEPT !.gm = [m |-> "rad", obs |-> s.st.obs]]
    [] g = "radfit" -> [s.st EXCEPT !.gm = [m |-> "rad", obs |-> s.st.obs],
                                    !.ga = [m |-> "radfit", obs |-> s.st.obs, d |-> s.daily, loc |-> s.loc]]

(* ------------------------------- operations ------------------------------ *)
\* A world holds two stations and a statistics object kept aside by the caller.
\* has2: whether the second station (a copy of the first) exists
\* gone: stations whose contents the caller has overwritten in place; nothing is said about them any more
NewWorld(l) == [s |-> <<NewStation(l), NewStation(l)>>, has2 |-> FALSE, gone |-> <<FALSE, FALSE>>, spare |-> NewStats(0)]
Judged(w) == {k \in {1, 2} : (k = 2 => w.has2) /\ ~w.gone[k]}
\* whether an operation is to be accepted
Accept(w, o) ==
  LET s == w.s[o.who]
  IN CASE o.op = "dis" -> Ready(s, o.var, o.m)
       [] o.op = "cal" -> CalReady(s, o.g)
       [] o.op = "interpolate" -> s.daily # 0
       [] o.op = "bad" -> FALSE
       [] OTHER -> TRUE
Effect(w, o) ==
  LET s == w.s[o.who]
      put(x) == [w EXCEPT !.s[o.who] = x]
  IN CASE o.op = "daily" -> put([s EXCEPT !.daily = o.v, !.col = NoCols])
       [] o.op = "lon" -> put([s EXCEPT !.loc = <<o.v, @[2], @[3]>>])
       [] o.op = "lat" -> put([s EXCEPT !.loc = <<@[1], o.v, @[3]>>])
       [] o.op = "tz"  -> put([s EXCEPT !.loc = <<@[1], @[2], o.v>>])
       [] o.op = "stats" -> put([s EXCEPT !.st = NewStats(o.v)])
       [] o.op = "obs" -> put([s EXCEPT !.st.obs = o.v])
       [] o.op = "swap" -> [put([s EXCEPT !.st = w.spare]) EXCEPT !.spare = s.st]
       [] o.op = "cal" -> put([s EXCEPT !.st = Calibrate(s, o.g)])
       [] o.op = "dis" -> put([s EXCEPT !.col[o.var] = Token(s, o.var, o.m)])
       [] o.op = "reload" -> put([s EXCEPT !.st.obs = 0])     \* saved and loaded again, without the observations
       [] o.op = "copy" -> [w EXCEPT !.s[2] = w.s[1], !.has2 = TRUE, !.gone[2] = FALSE]
       [] o.op = "edit" -> [w EXCEPT !.gone[o.who] = TRUE]
       [] o.op \in {"scribble", "interpolate", "json"} -> w
\* a rejected operation changes nothing
Apply(w, o) == IF Accept(w, o) THEN Effect(w, o) ELSE w
=============================================================================
