------------------------------- MODULE FramesGen -----------------------------
(* Scenes: satellites, velocities, instants, a location, and how the data are  *)
(* handed over. KIND names the property the scene is for.                     *)
EXTENDS Geometry, Json, IOUtils
VARIABLES k
KIND == IOEnv.KIND
Rnd(S) == RandomElement(S)
D(x) == LET c == Rnd(1..5) IN IF c = 5 THEN Rnd(-365249..365249) ELSE IF c = 1 THEN Rnd(-400..400) ELSE IF c = 2 THEN Rnd(5000..12000) ELSE IF c = 3 THEN Rnd(-50000..50000) ELSE Rnd({0, -1, 1, 36525, -36525}) + 0 * x
K(x) == LET c == Rnd(1..4) IN IF c = 1 THEN Rnd({0, 1, 32767, 32768, 65535}) + 0 * x ELSE Rnd(0..65535) + 0 * x
Lat(x) == LET c == Rnd(1..8) IN
    CASE c = 1 -> Rnd({0, Quarter, -Quarter, 0})
      [] c = 2 -> Rnd(-40000..40000)
      [] c = 3 -> Rnd({1, -1}) * (Quarter - Rnd(300..3000000))
      [] OTHER -> Rnd(-Quarter..Quarter) + 0 * x
Lon(x) == LET c == Rnd(1..5) IN IF c = 1 THEN Rnd({0, Half, -Half, Quarter, -Quarter, Half - 1, 1 - Half, 1, -1}) ELSE Rnd(-Half..Half) + 0 * x
Site(x) == LET c == Rnd(1..4) IN
    <<Lat(x), Lon(x), IF c = 1 THEN 0 ELSE IF c = 2 THEN Rnd(-7000..0) ELSE IF c = 3 THEN Rnd(0..150000) ELSE Rnd(0..2400000)>>
Alt(x) == LET c == Rnd(1..5) IN
    IF c <= 3 THEN Rnd(3300000..25000000) ELSE IF c = 4 THEN Rnd(25000000..330000000) ELSE Rnd({586000000, 331000000}) + Rnd(0..400000) + 0 * x
Wrap(t) == LET u == (t + Half) % One IN u - Half
Clip(t) == IF t > Quarter THEN Quarter ELSE IF t < -Quarter THEN -Quarter ELSE t
\* a satellite, in half of the scenes within reach of the site
Sat(site, x) == LET c == Rnd(1..12) g == FromGeodetic(site) IN
    CASE c <= 4 -> FromGeodetic(<<Clip(site[1] + Rnd(-20000000..20000000)), Wrap(site[2] + Rnd(-20000000..20000000)), Alt(x)>>)
      [] c = 5 -> FromGeodetic(<<site[1], site[2], site[3] + Rnd(3300000..25000000)>>)
      [] c = 6 -> FromGeodetic(<<-site[1], Wrap(site[2] + Half), Alt(x)>>)
      [] c = 7 -> LET r == Rnd(115000000..690000000) * Rnd({1, -1}) p == Rnd(1..3) IN [i \in 1..3 |-> IF i = p THEN r ELSE 0]
      [] c = 8 -> LET p == Rnd(1..3) v == FromGeodetic(<<Lat(x), Lon(x), Alt(x)>>) IN [i \in 1..3 |-> IF i = p THEN 0 ELSE IF Abs(v[i]) < 90000000 THEN 110000000 ELSE v[i]]
      [] c = 9 -> FromGeodetic(<<Clip(site[1] + Rnd(-300000..300000)), Wrap(site[2] + Rnd(-300000..300000)), site[3] + Rnd(3300000..25000000)>>)
      [] OTHER -> FromGeodetic(<<Lat(x), Lon(x), Alt(x)>>)
\* a satellite that is lower than the site
Beneath(site) == FromGeodetic(<<Clip(site[1] + Rnd(-600000..600000)), Wrap(site[2] + Rnd(-600000..600000)), Rnd(-7000..(site[3] - 100000))>>)
\* straight above the site
Overhead(site) == LET g == FromGeodetic(site) IN Add(g, Scale(Rnd({26843546, 67108864, 268435456}), g))
RECURSIVE Across(_, _)
Across(s, x) == LET u == Unit(FromGeodetic(<<Rnd(-Quarter..Quarter), Rnd(-Half..Half), 0>>)) w == Cross(u, Unit(s)) IN
    IF MaxAbs(w) < 27000000 THEN Across(s, x + 1) ELSE w
Velocity(s, w, c, m) == Scale(m, Add(w, Scale(c, Unit(s))))
\* multiples of a kilometre (for arrays of integers)
Whole(v) == [i \in 1..3 |-> (v[i] \div 16384) * 16384]
N == IF KIND = "C19" THEN {1, 2, 3} ELSE {1, 1, 2, 3, 5}
Scene ==
    \E site \in {Site(k)} : \E n \in {Rnd(N)} : \E form \in {Rnd({"float", "float", "int", "single"})} : \E over \in {Rnd(1..6) = 1} :
    \E raw \in {[i \in 1..n |-> IF over /\ i = 1 THEN Overhead(site) ELSE IF site[3] > 200000 /\ Rnd(1..3) = 1 THEN Beneath(site) ELSE Sat(site, i)]} :
    \E s0 \in {IF form = "int" THEN [i \in 1..n |-> Whole(raw[i])] ELSE raw} :
    \E cross \in {[i \in 1..n |-> Unit(Across(s0[i], i))]} :
    \E v0 \in {[i \in 1..n |-> Velocity(s0[i], cross[i], Rnd({0, 0, 20000000, -30000000, 80000000, 100}), IF form = "int" THEN Rnd({125000000, 180000000}) ELSE Rnd({125000000, 52000000, 180000000, 1000000}))]} :
    \E v \in {IF form = "int" THEN [i \in 1..n |-> [j \in 1..3 |-> ((v0[i][j] + 8388608) \div 16777216) * 16777216]] ELSE v0} :
    \E one \in {Rnd(1..3) = 1} : \E t1 \in {<<D(k), K(k)>>} :
    \E q0 \in {[i \in 1..n |-> IF one THEN t1 ELSE <<D(i), K(i)>>]} :
    \* two positions and their sum at one instant
    \E more \in {KIND = "C20" /\ form # "int" /\ Rnd(1..2) = 1} :
    \E s \in {IF more THEN LET a == Halve(s0[1]) b == Halve(Sat(site, 7)) IN s0 \o <<a, b, Add(a, b)>> ELSE s0} :
    \E q \in {IF more THEN q0 \o <<t1, t1, t1>> ELSE q0} :
    \E p \in {[i \in 1..n |-> LET c == Rnd(1..3) IN <<Lat(i), Lon(i), IF c = 1 THEN Rnd(-8000000..1000000) ELSE IF c = 2 THEN Rnd(0..150000) ELSE Alt(i)>>]} :
    \E sel \in {[j \in 1..Rnd(1..(n + 1)) |-> Rnd(1..n)]} :
    PrintT("GEN " \o ToJson([q |-> q, s |-> s, v |-> v, loc |-> site, p |-> p, sel |-> sel, form |-> form,
        over |-> [i \in 1..Len(s) |-> over /\ i = 1 /\ form # "int"],
        \* the samples may be given again and again, in one long array
        rep |-> IF ~more /\ Rnd(1..50) = 1 THEN Rnd({40, 400, 1100, 2300}) ELSE 1,
        lin |-> IF more THEN <<<<n + 1, n + 2, n + 3>>>> ELSE <<>>,
        unit |-> Rnd({"km", "m", "mi", "cm"}), angle |-> Rnd({"deg", "rad", "arcmin", "arcsec", "hourangle"})]))
Init == k = 0
Next == k < 1 /\ k' = k + 1 /\ Scene
GenSpec == Init /\ [][Next]_k
=============================================================================
