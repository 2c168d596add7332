------------------------------- MODULE ClocksMC ------------------------------
(* The clocks and the Earth's orientation by themselves, over many instants.  *)
EXTENDS Clocks
CONSTANTS STEP
VARIABLES d, i
Ks == <<0, 1, 16384, 40000, 65535>>
Init == d \in {x \in -36525..36525 : x % (STEP * 101) = 7 \/ (x \in 0..6800 /\ x % STEP = 0)} /\ i = 1
Next == i < Len(Ks) /\ i' = i + 1 /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, i>>
k == Ks[i]
Bounded == /\ Gap(TrueSolar(d, k, 0), MeanSolar(k, 0)) <= 10200000 /\ Abs(Equinoxes(d, k) - EqEquinoxes(d, k)) <= 4
\* the Sun gains one turn on the stars in a year: sidereal time of mean noon
\* follows the mean Sun, to the precession of the equinox and rounding
Noon == Abs(Signed(209126133 + SpinWhole(Gmst, d, 0) - MeanSun(d, 0))) <= 80000
\* rates add up
Additive == /\ Abs(Signed(Spin(MoonL, d, k) - Spin(MoonL, d - 3, k) - Spin(MoonL, 3, 0))) <= 2
            /\ Abs(Signed(Spin(Era, d, k) - Spin(Era, d, 0) - Spin(Era, 0, k))) <= 2
Continuous == Abs(Signed(SpinWhole(Gmst, d, 65535) - SpinWhole(Gmst, d + 1, 0))) <= 4200
\* the sidereal angle of the transformation is Greenwich apparent sidereal time
Consistent == Gap(Clock(Sidereal(d, k)), MeanSidereal(d, k) + EqEquinoxes(d, k)) <= 20000 + 3 * (Abs(d) \div 2)
Rigid == LET v == <<90000000, -60000000, 30000000>> w == ToTerrestrial(d, k, v) IN Abs(Dot(w, w) - Dot(v, v)) <= 200
ASSUME Abs(EqTime(-2452 + 15, 0)) < 9000000
ASSUME Abs(Cent(36525, 0) - One) <= 1 /\ Abs(Cent(-36525, 0) + One) <= 1
\* Meeus, example 22.a: 1987 April 10.0: nutation -3.788" and +9.443", true obliquity 23.4435694 deg
ASSUME Abs(NutLon(-4650, 32768) + 37880) <= 6000 /\ Abs(NutObl(-4650, 32768) - 94430) <= 2000
ASSUME Abs(TrueObl(-4650, 32768) - 17480796) <= 60
\* Meeus, example 28.b: 1992 October 13.0: equation of time +13 m 42.7 s
ASSUME Abs(EqTime(-2637, 32768) - 8227000) <= 10000
=============================================================================
