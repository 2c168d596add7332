------------------------------ MODULE Validation -----------------------------
(* C25: which inputs the constructors and the window generation accept.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Clause(name, ok) == IF ok THEN {} ELSE {name}
Range(s) == {s[i] : i \in 1..Len(s)}

\* ---- arrays by their shape; a frame takes three (AzEl) or four of them
Shapes == {<<>>, <<0>>, <<1>>, <<2>>, <<3>>, <<2, 1>>, <<1, 2>>, <<1, 1>>, <<3, 1>>, <<2, 2>>, <<1, 1, 2>>}
Frames == {"GCRS", "ITRS", "LVLH", "WGS84", "Attitude", "AzEl"}
Arity(f) == IF f = "AzEl" THEN 3 ELSE 4
FrameOk(shapes) == \A i \in 1..Len(shapes) : Len(shapes[i]) = 1 /\ shapes[i] = shapes[1]

\* ---- angles on a grid of 1/4 degree; +1 and -1 stand for the next number up and down
\* an angle: <<quarter degrees, offset>>; "nan" and infinities apart
Within(a, limit) == (a[1] > -4 * limit \/ (a[1] = -4 * limit /\ a[2] >= 0)) /\ (a[1] < 4 * limit \/ (a[1] = 4 * limit /\ a[2] <= 0))
Angle(a, limit) == a \notin {<<"nan">>, <<"inf">>, <<"-inf">>} /\ Within(a, limit)
LocationOk(lat, lon) == Angle(lat, 90) /\ Angle(lon, 180)

\* ---- thresholds, likewise; 0 .. 90 degrees
ThresholdOk(a) == Angle(a, 90) /\ ~(a[1] < 0 \/ (a[1] = 0 /\ a[2] < 0))
\* ---- objects handed over as positions
SatelliteOk(p, v) == p \in {"GCRS", "ITRS"} /\ v \in {"GCRS", "ITRS", "none"}
CoordinateOk(p) == p \in {"GCRS", "ITRS", "WGS84"}
ConvertOk(p, to, loc) == CoordinateOk(p) /\ to \in {"GCRS", "ITRS", "WGS84", "AzEl"} /\ (to = "AzEl" => loc)
WindowsOk(vel, a, light) == vel /\ ThresholdOk(a) /\ light \in {"day", "night", "any"}
\* times: one, or a row of them
TimeOk(shape) == Len(shape) <= 1
SchedulerOk(sat, threshold) == sat = "satellite" /\ threshold \in {"int", "float"}

Verdict(c) ==
    CASE c.w = "frame" -> FrameOk(c.shapes)
      [] c.w = "location" -> LocationOk(c.lat, c.lon)
      [] c.w = "satellite" -> SatelliteOk(c.p, c.v)
      [] c.w = "coordinate" -> CoordinateOk(c.p)
      [] c.w = "convert" -> ConvertOk(c.p, c.to, c.loc)
      [] c.w = "windows" -> WindowsOk(c.vel, c.a, c.light)
      [] c.w = "time" -> TimeOk(c.shape)
      [] c.w = "scheduler" -> SchedulerOk(c.sat, c.a)

\* an event: a case, what became of it ("accepted", "refused" by an exception,
\* or something else) and whether the accepted data is what was handed over
EventClauses(e) ==
    IF e.op = "crash" THEN {"C25.crash"}
    ELSE Clause("C25." \o e.c.w \o (IF Verdict(e.c) THEN "_accepted" ELSE "_refused"),
                e.got = (IF Verdict(e.c) THEN "accepted" ELSE "refused"))
         \cup Clause("C25." \o e.c.w \o "_kept", e.got = "accepted" => e.kept)
=============================================================================
