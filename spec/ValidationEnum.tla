---------------------------- MODULE ValidationEnum ---------------------------
(* Every case: frames with all combinations of shapes (with DEEP), locations   *)
(* at and around the limits in every angular unit, and so on. The state is    *)
(* the case; the invariants are facts about the verdict itself.               *)
EXTENDS Validation, Json
CONSTANT DEEP
VARIABLES c
Few == {<<>>, <<0>>, <<1>>, <<2>>, <<2, 1>>, <<1, 2>>}
FrameCases ==
    {[w |-> "frame", f |-> f, shapes |-> s] :
        f \in Frames \ {"AzEl"}, s \in [1..4 -> IF DEEP THEN Shapes ELSE Few]}
    \cup {[w |-> "frame", f |-> "AzEl", shapes |-> s] : s \in [1..3 -> Shapes]}
\* one array of another shape than the others
Odd == {[w |-> "frame", f |-> f, shapes |-> [i \in 1..Arity(f) |-> IF i = k THEN b ELSE a]] :
        f \in Frames, k \in 1..3, a \in Shapes, b \in Shapes}
Units == {"deg", "rad", "arcmin", "arcsec", "hourangle"}
Special == {<<"nan">>, <<"inf">>, <<"-inf">>}
Around(limit) == {<<s * 4 * limit + d, 0>> : s \in {1, -1}, d \in {-1, 0, 1}} \cup {<<s * 4 * limit, o>> : s \in {1, -1}, o \in {1, -1}}
Lats == Around(90) \cup Special \cup {<<0, 0>>, <<1, 0>>, <<-150, 0>>, <<720, 0>>, <<-720, 0>>, <<1440, 0>>, <<20626, 0>>}
Lons == Around(180) \cup Special \cup {<<0, 0>>, <<-1, 0>>, <<400, 0>>, <<360, 0>>, <<-360, 0>>, <<1440, 0>>, <<-1080, 0>>}
LocationCases == {[w |-> "location", lat |-> a, lon |-> b, unit |-> t] : a \in Lats, b \in Lons, t \in Units}
Things == Frames \cup {"none", "array", "quantity", "satellite", "location"}
SatelliteCases == {[w |-> "satellite", p |-> p, v |-> v] : p \in Things, v \in Things}
CoordinateCases == {[w |-> "coordinate", p |-> p] : p \in Things}
ConvertCases == {[w |-> "convert", p |-> p, to |-> f, loc |-> b] : p \in {"GCRS", "ITRS", "WGS84"}, f \in Frames, b \in BOOLEAN}
Thresholds == {<<0, 0>>, <<0, -1>>, <<0, 1>>, <<360, 0>>, <<360, 1>>, <<360, -1>>, <<361, 0>>, <<-1, 0>>, <<120, 0>>, <<40, 0>>, <<-360, 0>>, <<720, 0>>} \cup Special
WindowCases == {[w |-> "windows", vel |-> v, a |-> a, light |-> l] : v \in BOOLEAN, a \in Thresholds, l \in {"day", "night", "any", "noon", "seven", "none"}}
SchedulerCases == {[w |-> "scheduler", sat |-> p, a |-> a] : p \in Things, a \in {"int", "float", "text", "none", "array", "list"}}
TimeCases == {[w |-> "time", shape |-> s, form |-> f, off |-> o] : s \in Shapes, f \in {"array", "list", "tuple", "ints"}, o \in BOOLEAN}
Cases == TimeCases \cup FrameCases \cup Odd \cup LocationCases \cup SatelliteCases \cup CoordinateCases \cup ConvertCases \cup WindowCases \cup SchedulerCases
Init == c \in Cases /\ PrintT("GEN " \o ToJson(c))
Next == FALSE /\ UNCHANGED c
GenSpec == Init /\ [][Next]_c
\* the verdict does not depend on the order of the arrays, nor on the unit
Symmetric == c.w = "frame" => (Verdict(c) <=> Verdict([c EXCEPT !.shapes = [i \in DOMAIN c.shapes |-> c.shapes[Len(c.shapes) + 1 - i]]]))
\* limits are symmetric about zero
Opposite(a) == IF a = <<"inf">> THEN <<"-inf">> ELSE IF a = <<"-inf">> THEN <<"inf">> ELSE IF a = <<"nan">> THEN a ELSE <<-a[1], -a[2]>>
Mirrored == c.w = "location" => (Verdict(c) <=> Verdict([c EXCEPT !.lat = Opposite(c.lat), !.lon = Opposite(c.lon)]))
\* a position that makes a satellite can be converted to every frame with a location
Convertible == (c.w = "satellite" /\ Verdict(c)) => \A f \in {"GCRS", "ITRS", "WGS84", "AzEl"} : ConvertOk(c.p, f, TRUE)
=============================================================================
