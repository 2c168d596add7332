-------------------------------- MODULE Series -------------------------------
(* The published series behind the astronomical quantities (C28): at d days    *)
(* and k / 2^16 day after J2000, |d| <= 365250, and the polynomials over 10000 *)
(* years either side of it. Angles are held to 2^-42 turn, as <<turns / 2^28, rest>>.       *)
EXTENDS Astronomy

\* ---- fine angles
Put(hi, lo) == <<(hi + lo \div K14) % One, lo % K14>>
Plus(v, w) == Put(v[1] + w[1], v[2] + w[2])
\* turns made in d days and k / 2^16 day, |d| <= 365250
SpinFine(L, d, k) ==
    LET d1 == d \div K14 d0 == d % K14
        x4 == L[4] * d0
        x3 == L[3] * d0 + L[4] * d1 + x4 \div K14
        x2 == L[2] * d0 + L[3] * d1 + x3 \div K14
        x1 == L[1] * d0 + L[2] * d1 + x2 \div K14
        s == IF L[1] >= 8192 THEN L[1] - K14 ELSE L[1]
        a == s * k b == (L[2] * k) \div 4 IN
    Put((x1 % K14) * K14 + (x2 % K14) + a \div 4 + b \div K14,
        (x3 % K14) + (a % 4) * 4096 + (b % K14) + (L[3] * k) \div 65536)
\* v and w differ by at most n / 2^42 turn, n < 2^20
Same(v, w, n) == LET h == Signed(v[1] - w[1]) IN Abs(h) <= 100 /\ Abs(h * K14 + v[2] - w[2]) <= n
SinFine(v) == Sin(v[1]) + Mul(Cos(v[1]), (v[2] * 6434 + 8388608) \div 16777216)
CosFine(v) == Cos(v[1]) - Mul(Sin(v[1]), (v[2] * 6434 + 8388608) \div 16777216)

\* ---- arguments: c + rate t + a v^2 + b v^3, with v in thousands of Julian years, a and b in 2^-38 turn
Kilo(d, k) ==
    LET q1 == (d * 512) \div 365250 r1 == (d * 512) % 365250
        q2 == (r1 * 512) \div 365250 r2 == (r1 * 512) % 365250
        q3 == (r2 * 512) \div 365250 r3 == (r2 * 512) % 365250 IN
    q1 * 524288 + q2 * 1024 + q3 * 2 + (r3 * 2 + 182625) \div 365250 + (k * 4096) \div 365250
Argument(c, L, a, b, d, k) ==
    LET v == Kilo(d, k) v2 == Sq(v) q == Mul(a, v2) + Mul(b, Mul(v, v2)) IN
    Plus(Plus(c, SpinFine(L, d, k)), <<q \div 1024, (q % 1024) * 16>>)
ElongationRate == <<554, 13345, 6283, 10351>>  \* 445267.111480 deg per century
MoonAnomRate   == <<594, 9868, 13627, 6115>>   \* 477198.867398 deg per century
LatitudeRate   == <<602, 1350, 8393, 2454>>    \* 483202.017538 deg per century
Elongation(d, k)  == Argument(<<222093325, 9392>>, ElongationRate, -146158692, 4029839, d, k)  \* 297.85036 deg
Anomaly(d, k)     == Argument(<<266591990, 6865>>, SunM, -12239702, -2545166, d, k)            \* 357.52772 deg
MoonAnomaly(d, k) == Argument(<<100635691, 14537>>, MoonAnomRate, 664074481, 13574218, d, k)  \* 134.96298 deg
Latitude(d, k)    == Argument(<<69548576, 15148>>, LatitudeRate, -281177192, 2333088, d, k)    \* 93.27191 deg
NodeOf(d, k)      == Argument(<<93239952, 1206>>, Node, 158115880, 1696777, d, k)              \* 125.04452 deg
Delaunay(d, k) == <<Elongation(d, k), Anomaly(d, k), MoonAnomaly(d, k), Latitude(d, k), NodeOf(d, k)>>
SunMean(d, k) == Plus(<<209130942, 12673>>, SpinFine(SunL, d, k))                           \* 280.46645 deg
RotationAngle(d, k) == LET s == SpinFine(Era, d, k) IN Plus(<<209126133 + 4096 * k, 4995>>, s)  \* 280.46 deg

\* ---- nutation in longitude and obliquity, and the equation of the equinoxes, in 10^-6 arcsecond
MoonMean(d, k) == Plus(<<162788581, 0>>, SpinFine(MoonL, d, k))                            \* 218.3165 deg
FineLon(d, k) == LET o == NodeOf(d, k)[1] l == SunMean(d, k)[1] m == MoonMean(d, k)[1] IN
    -Mul(17200000, Sin(o)) - Mul(1320000, Sin(2 * l)) - Mul(230000, Sin(2 * m)) + Mul(210000, Sin(2 * o))
FineObl(d, k) == LET o == NodeOf(d, k)[1] l == SunMean(d, k)[1] m == MoonMean(d, k)[1] IN
    Mul(9200000, Cos(o)) + Mul(570000, Cos(2 * l)) + Mul(100000, Cos(2 * m)) - Mul(90000, Cos(2 * o))

\* ---- polynomials in x, d days and k / 2^16 day as a fraction of 10000 Julian years, |d| <= 3652500
Myriad(d, k) ==
    LET q1 == (d * 512) \div 3652500 r1 == (d * 512) % 3652500
        q2 == (r1 * 512) \div 3652500 r2 == (r1 * 512) % 3652500
        q3 == (r2 * 512) \div 3652500 r3 == (r2 * 512) % 3652500 IN
    q1 * 524288 + q2 * 1024 + q3 * 2 + (r3 * 2 + 1826250) \div 3652500 + k \div 892
RECURSIVE Horner(_, _, _)
Horner(c, x, i) == IF i = Len(c) THEN c[i] ELSE c[i] + Mul(Horner(c, x, i + 1), x)
Poly(c, x) == Horner(c, x, 1)
\* mean obliquity, in 1/1000 arcsecond
LongObliquity == <<84381448, -4680930, -1550, 1999250, -51380, -249670, -39050, 7120, 27870, 5790, 2450>>
\* precession angles, in 1/1000 arcsecond
LongZeta  == <<2598, 230608095, 3019015, 17966300, -3270000, -2000000>>
LongTheta == <<0, 200419175, -4269353, -41825100, -6010000, -1000000>>
LongZed   == <<-2598, 230608032, 10947790, 18227300, 4700000, -3000000>>
MilliToTurns(x) == Mul(x, 55599995)

\* true obliquity in turns
Tilt(d, k) == MilliToTurns(Poly(LongObliquity, Myriad(d, k))) + ToTurns(FineObl(d, k) \div 100)

\* ---- the Sun: equation of the centre (2^-35 turn), true longitude
Centre(d, k) ==
    LET v == Kilo(d, k) m == Anomaly(d, k) IN
    Mul(182736733 - Mul(4597520, v) - Mul(133600, Sq(v)), SinFine(m))
    + Mul(1908206 - Mul(96400, v), SinFine(Plus(m, m))) + Mul(27583, SinFine(Plus(m, Plus(m, m))))
SunTrue(d, k) == LET c == Centre(d, k) IN Plus(SunMean(d, k), <<c \div 128, (c % 128) * 128>>)
\* a is the right ascension of the Sun: tan a = cos(obliquity) tan(longitude)
SunAscensionIs(a, d, k, tol) ==
    LET l == SunTrue(d, k) o == MilliToTurns(Poly(LongObliquity, Myriad(d, k)))
        y == Mul(Cos(o), SinFine(l)) x == CosFine(l) IN
    /\ Abs(Mul(SinFine(a), x) - Mul(CosFine(a), y)) <= tol
    /\ Mul(CosFine(a), x) + Mul(SinFine(a), y) > 0

\* the equation of time in 1/10000 second of time: apparent minus mean solar time
SolarTime(d, k) ==
    LET v == Kilo(d, k) l == SunMean(d, k)[1] m == Anomaly(d, k)[1]
        e == 4485190 - Mul(112842, v) - Mul(3401, Sq(v))     \* eccentricity
        h == Tilt(d, k) \div 2
        tn == Div(Sin(h), Cos(h)) y == Sq(tn)
        r == Mul(y, Sin(2 * l)) - 2 * Mul(e, Sin(m)) + 4 * Mul(Mul(e, y), Mul(Sin(m), Cos(2 * l)))
             - Mul(Sq(y) \div 2, Sin(4 * l)) - Mul(Sq(e) + Sq(e) \div 4, Sin(2 * m)) IN
    Mul(r, 137509871)

\* celestial to terrestrial: frame bias, precession, nutation, rotation from the true equinox of date
Turning(d, k) ==
    LET u == Myriad(d, k) z == MilliToTurns(Poly(LongZeta, u)) zz == MilliToTurns(Poly(LongZed, u)) IN
    (RotationAngle(d, k)[1] + z + zz + ToTurns(Mul(FineLon(d, k), Cos(Tilt(d, k))) \div 100)) % One
Oriented(d, k, v) ==
    LET u == Myriad(d, k)
        p == R3(-MilliToTurns(Poly(LongZed, u)), R2(MilliToTurns(Poly(LongTheta, u)), R3(-MilliToTurns(Poly(LongZeta, u)), Bias(v))))
        n == R1(-Tilt(d, k), R3(-ToTurns(FineLon(d, k) \div 100), R1(MilliToTurns(Poly(LongObliquity, u)), p))) IN
    R3(Turning(d, k), n)

Within(x, y, tol) == Abs(x - y) <= tol
\* 10^-7 degree
Degrees7 == 1221
InstantClauses(e) ==
    UNION { LET d == e.q[i][1] k == e.q[i][2] v == e.v[i] w == Delaunay(d, k)
                lon == FineLon(d, k) obl == FineObl(d, k) IN
        Clause("C28.rotation_angle", Same(v.era, RotationAngle(d, k), Degrees7))
        \cup Clause("C28.nutation_angles", \A j \in 1..5 : Same(v.args[j], w[j], Degrees7))
        \cup Clause("C28.nutation", Within(v.lon, lon, 8) /\ Within(v.obl, obl, 8))
        \cup Clause("C28.obliquity", Within(v.mean, Poly(LongObliquity, Myriad(d, k)), 4))
        \cup Clause("C28.true_obliquity", Within(v.shift, obl, 8))
        \cup Clause("C28.equinoxes", Within(v.eqe, Mul(lon, Cos(Tilt(d, k))) \div 15, 3))
        \cup Clause("C28.time", Within(v.eot, SolarTime(d, k), 15))
        \cup Clause("C28.sun", SunAscensionIs(v.sun, d, k, 16))
        : i \in 1..Len(e.q)}
    \cup Clause("C28.range", e.inrange) \cup Clause("C28.scalar", e.scalar) \cup Clause("C28.kept", e.kept)
AgeClauses(e) ==
    UNION { LET u == Myriad(e.q[i], 0) v == e.v[i] IN
        Clause("C28.obliquity", Within(v.mean, Poly(LongObliquity, u), 4))
        \cup Clause("C28.precession", /\ Within(v.zeta, Poly(LongZeta, u), 6)
                /\ Within(v.theta, Poly(LongTheta, u), 6) /\ Within(v.z, Poly(LongZed, u), 6))
        : i \in 1..Len(e.q)}
    \cup Clause("C28.scalar", e.scalar) \cup Clause("C28.kept", e.kept)
\* radius of curvature in the prime vertical, for latitudes of n / 2^20 turn
LatitudeClauses(e) ==
    UNION { LET s == Sin(e.q[i] * 256) IN
        Clause("C28.curvature", Within(Mul(e.v[i], Sqrt(One - Mul(1797009, Sq(s)))), 104499397, 6))
        : i \in 1..Len(e.q)}

EventClauses(e) ==
    CASE e.op = "crash" -> {"C28.crash"}
      [] e.op = "instants" -> InstantClauses(e)
      [] e.op = "ages" -> AgeClauses(e)
      [] OTHER -> LatitudeClauses(e)
=============================================================================
