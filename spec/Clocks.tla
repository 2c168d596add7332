-------------------------------- MODULE Clocks -------------------------------
(* Solar (C17) and sidereal (C18) clocks in 1/10000 second at d days and       *)
(* k / 2^16 day after J2000 noon, longitude n / 24000 degree East.                *)
EXTENDS Astronomy
Published == INSTANCE Series
Day == 864000000
Greenwich(k) == (432000000 + k * 13183 + (k * 19) \div 32) % Day   \* 24 h * (JD + 0.5)
East(n) == n * 100                                        \* n / 24000 / 15 h
MeanSolar(k, n) == (Greenwich(k) + East(n)) % Day
TrueSolar(d, k, n) == (MeanSolar(k, n) + Published!SolarTime(d, k)) % Day
\* hour angle: the clock read from noon
FromNoon(x) == (x + 432000000) % Day
\* turns to clock units: 864000000 / 2^28 = 3.21865...
Clock(t) == (t * 3 + Mul(t, 58693632)) % Day
\* 280.46 + 360.98564736629 d + 0.000387933 c^2 - c^3 / 38710000 degrees, c in centuries
MeanSidereal(d, k) ==
    LET v == Published!Kilo(d, k) v2 == Sq(v)
        s == Published!Plus(<<209126133 + 4096 * k, 4995>>, Published!SpinFine(Gmst, d, k)) IN
    (Clock(s[1]) + ((s[2] * 322) \div 1638400) + Mul(93104, v2) - Mul(62, Mul(v, v2))) % Day
Equinoxes(d, k) == Mul(Published!FineLon(d, k), Cos(Published!Tilt(d, k))) \div 1500
\* difference of two clock readings, within half a day of zero
Gap(x, y) == LET g == (x - y) % Day IN IF g > Day \div 2 THEN Day - g ELSE g

EventClauses(e) ==
    IF e.op = "crash" THEN {p \o ".crash" : p \in {"C17", "C18"}}
    ELSE LET at(x, y, tol) == Gap(x, y) <= tol IN
    UNION { LET q == e.q[i] d == q[1] k == q[2] n == q[3]
                solar == e.solar[i] star == e.star[i]
                eot == Published!SolarTime(d, k) eqe == Equinoxes(d, k) IN
        Clause("C17.mean", at(solar.mean, MeanSolar(k, n), 4))
        \cup Clause("C17.universal", at(solar.ut, Greenwich(k), 4))
        \cup Clause("C17.true", at(solar.true, solar.mean + eot, 100))
        \cup Clause("C17.bound", Abs(d) > 65000 \/ Gap(solar.true, solar.mean) <= 10200000)
        \cup Clause("C17.hour_angle", at(solar.mha, FromNoon(solar.mean), 4) /\ at(solar.tha, FromNoon(solar.true), 4))
        \cup Clause("C17.range", solar.inrange)
        \cup Clause("C17.scalar", solar.scalar)
        \cup Clause("C18.mean", at(star.gmst, MeanSidereal(d, k), 10))
        \cup Clause("C18.apparent", at(star.gast, star.gmst + eqe, 10) /\ Gap(star.gast, star.gmst) <= 13000)
        \cup Clause("C18.local", at(star.lmst, star.gmst + East(n), 4) /\ at(star.last, star.gast + East(n), 4))
        \cup Clause("C18.range", star.inrange)
        \cup Clause("C18.scalar", star.scalar)
        : i \in 1..Len(e.q)}
=============================================================================
