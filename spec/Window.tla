------------------------------- MODULE Window -------------------------------
(* Part of a series instead of the whole: days a..b of days 1..N.  An hour   *)
(* keeps its value if it is computed from the same daily values as before.   *)
EXTENDS Missing

WindowMethods == (Methods \ {"wind_random"}) \cup {"sine_sun", "sine_mean_sun", "sine_shift_night", "hum_kept", "precip_equal", "precip_master", "sun_times", "potential", "aggregate"}
Around(cols, d, N) == {<<c, x>> : c \in cols, x \in {PrevOf(d), d, NextOf(d, N)}}
Uses(m, d, h, N) ==
  CASE m \in {"sine_sun", "sine_shift_night"} -> Around({"tmin", "tmax"}, d, N)
    [] m = "sine_mean_sun" -> Own({"temp", "tmin", "tmax"}, d)
    [] m = "hum_kept" -> Own({"tmin", "hum"}, d)
    [] m \in {"precip_equal", "precip_master"} -> Own({"precip"}, d)
    [] m \in {"sun_times", "potential", "aggregate"} -> {}
    [] OTHER -> Deps(m, d, h, N)
Moved(D, k) == {<<x[1], x[2] + k>> : x \in D}
\* whether hour h of day d is computed from the same values in the window
SameUse(m, a, b, d, h, N) == Moved(Uses(m, d - a + 1, h, b - a + 1), a - 1) = Uses(m, d, h, N)
\* Bristow-Campbell also uses the mean range of the month
SameMonth(m, a, b, d, N, month) == m = "pot_rad_via_bc" =>
   \A x \in 1..N : month[x] = month[d] => x \in a..b /\ SameUse(m, a, b, x, 0, N)
Kept(m, a, b, d, h, N, month) == SameUse(m, a, b, d, h, N) /\ SameMonth(m, a, b, d, N, month)
=============================================================================
