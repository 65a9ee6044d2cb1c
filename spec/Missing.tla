------------------------------- MODULE Missing ------------------------------
(* Which daily values an hour is computed from, per method.  Days are 1..N,  *)
(* hours 0..23.  A dependency is <<column, day>>.                            *)
EXTENDS Integers, Sequences, FiniteSets

Own(cols, d) == {<<c, d>> : c \in cols}
NextOf(d, N) == IF d = N THEN d ELSE d + 1
PrevOf(d) == IF d = 1 THEN 1 ELSE d - 1

MinHour == 7      \* option "fix"
MaxHour == 14

Methods == {"sine_min_max", "sine_min_max_night", "sine_mean", "mean_course_min_max", "mean_course_mean",
            "hum_equal", "hum_minimal", "hum_regression", "hum_linear", "hum_min_max", "hum_category",
            "wind_equal", "wind_cosine", "wind_random",
            "pot_rad", "pot_rad_via_ssd", "pot_rad_via_bc", "rad_mean_course"}

Deps(m, d, h, N) ==
  CASE m \in {"sine_min_max", "sine_min_max_night"} ->
         {<<"tmin", IF h < MaxHour THEN d ELSE NextOf(d, N)>>, <<"tmax", IF h < MinHour THEN PrevOf(d) ELSE d>>}
    [] m \in {"sine_mean", "mean_course_mean"} -> Own({"temp", "tmin", "tmax"}, d)
    [] m = "mean_course_min_max" -> Own({"tmin", "tmax"}, d)
    [] m = "hum_equal" -> Own({"hum"}, d)
    [] m \in {"hum_minimal", "hum_regression"} -> Own({"tmin"}, d)
    [] m = "hum_linear" -> {<<"tmin", d>>, <<"tmin", NextOf(d, N)>>}
    [] m = "hum_min_max" -> Own({"hum_min", "hum_max", "tmin", "tmax"}, d)
    [] m = "hum_category" -> {}
    [] m \in {"wind_equal", "wind_cosine", "wind_random"} -> Own({"wind"}, d)
    [] m \in {"pot_rad", "rad_mean_course"} -> Own({"glob"}, d)
    [] m = "pot_rad_via_ssd" -> Own({"ssd"}, d)
    [] m = "pot_rad_via_bc" -> {<<"tmax", d>>, <<"tmin", d>>, <<"tmin", NextOf(d, N)>>}

\* columns whose absence may matter to a method
Columns(m) == CASE m = "hum_category" -> {"precip"}
                [] OTHER -> {x[1] : x \in Deps(m, 1, 0, 1)}

\* an hour is missing exactly if something it is computed from is missing
HourMissing(m, mask, d, h, N) == Deps(m, d, h, N) \cap mask # {}
=============================================================================
