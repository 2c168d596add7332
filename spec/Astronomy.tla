------------------------------ MODULE Astronomy ------------------------------
(* The Earth's orientation at an instant: d days and k / 2^16 day after J2000  *)
(* (Julian date 2451545), |d| < 2^16. Angles in turns (FixedPoint); small      *)
(* angles also in 1/10000 arcsecond. One arcsecond is 207.1 units of a turn.   *)
EXTENDS FixedPoint

\* rates in turns per day as four groups of 14 bits (56 bits), modulo one turn
Era   == <<44, 14029, 13113, 11024>>   \* 360.9856123035484 deg
Gmst  == <<44, 14055, 15484, 482>>     \* 360.98564736629 deg
SunL  == <<44, 14055, 15409, 3156>>    \* 36000.76983 deg per century
MoonL == <<599, 11017, 5305, 7857>>    \* 481267.8813 deg per century
Node  == <<16381, 9666, 13288, 10433>> \* -1934.136261 deg per century
SunM  == <<44, 14020, 13718, 3808>>    \* 35999.050340 deg per century
\* turns made in d days and k / 2^16 day; whole: plus one turn per day
Spin(L, d, k) ==
    LET x4 == L[4] * d
        x3 == L[3] * d + x4 \div K14
        x2 == L[2] * d + x3 \div K14
        x1 == L[1] * d + x2 \div K14
        \* the part of a day: a slow rate may be a negative one
        s == IF L[1] >= 8192 THEN L[1] - K14 ELSE L[1] IN
    ((x1 % K14) * K14 + (x2 % K14) + (s * k) \div 4 + (L[2] * k) \div 65536) % One
SpinWhole(L, d, k) == (Spin(L, d, k) + 4096 * k) % One

\* Julian centuries since J2000
Cent(d, k) == LET n == d * K14 q == n \div 36525 r == n % 36525 IN
    q * K14 + (r * K14 + 4096 * k) \div 36525

\* angles (turns) at the instant [d, k]
MeanSun(d, k) == (209130943 + Spin(SunL, d, k)) % One        \* 280.46645 deg
MeanMoon(d, k) == (162788581 + Spin(MoonL, d, k)) % One      \* 218.3165 deg
MoonNode(d, k) == LET t == Cent(d, k) IN                        \* 125.04452 deg + 0.0020708 T^2 + T^3 / 450000
    (93239952 + Spin(Node, d, k) + Mul(1544, Sq(t)) + Mul(2, Mul(t, Sq(t)))) % One
SunAnomaly(d, k) == LET t == Cent(d, k) IN                      \* 357.52772 deg - 0.0001603 T^2 - T^3 / 300000
    (266591990 + Spin(SunM, d, k) - Mul(120, Sq(t)) - Mul(2, Mul(t, Sq(t)))) % One

\* nutation in longitude and obliquity, in 1/10000 arcsecond
NutLon(d, k) == LET o == MoonNode(d, k) l == MeanSun(d, k) m == MeanMoon(d, k) IN
    -Mul(172000, Sin(o)) - Mul(13200, Sin(2 * l)) - Mul(2300, Sin(2 * m)) + Mul(2100, Sin(2 * o))
NutObl(d, k) == LET o == MoonNode(d, k) l == MeanSun(d, k) m == MeanMoon(d, k) IN
    Mul(92000, Cos(o)) + Mul(5700, Cos(2 * l)) + Mul(1000, Cos(2 * m)) - Mul(900, Cos(2 * o))
\* 1/10000 arcsecond to turns: 2^28 / (1296000 * 10^4) = 0.0207126 = 33936 / 2^14 / 100
ToTurns(x) == ((x \div 100) * 33936) \div K14 + ((x % 100) * 339) \div 16384
\* mean obliquity: 84381.448" - 46.8093" T - 0.000155" T^2 + 0.00199925" T^3
MeanObl(d, k) == LET t == Cent(d, k) IN 17477602 - Mul(9695, t)
TrueObl(d, k) == MeanObl(d, k) + ToTurns(NutObl(d, k))

\* precession angles (turns)
Zeta(d, k) == LET t == Cent(d, k) t2 == Sq(t) IN 538 + Mul(477650, t) + Mul(63, t2) + Mul(4, Mul(t, t2))
Theta(d, k) == LET t == Cent(d, k) t2 == Sq(t) IN Mul(415120, t) - Mul(88, t2) - Mul(9, Mul(t, t2))
Zed(d, k) == LET t == Cent(d, k) t2 == Sq(t) IN -538 + Mul(477649, t) + Mul(227, t2) + Mul(4, Mul(t, t2))

\* equation of the equinoxes, in 1/10000 second of time
EqEquinoxes(d, k) == Mul(NutLon(d, k), Cos(TrueObl(d, k))) \div 15
\* the Earth's rotation from the true equinox of date
Sidereal(d, k) ==
    (209126133 + SpinWhole(Era, d, k)                        \* 280.46 deg
     + Zeta(d, k) + Zed(d, k) + ToTurns(15 * EqEquinoxes(d, k))) % One

\* equation of time in 1/10000 second of time: apparent minus mean solar time
EqTime(d, k) ==
    LET t == Cent(d, k) l == MeanSun(d, k) m == SunAnomaly(d, k)
        e == 4485190 - Mul(11284, t) - Mul(34, Sq(t))        \* eccentricity
        h == TrueObl(d, k) \div 2
        tn == Div(Sin(h), Cos(h)) y == Sq(tn)
        r == Mul(y, Sin(2 * l)) - 2 * Mul(e, Sin(m)) + 4 * Mul(Mul(e, y), Mul(Sin(m), Cos(2 * l)))
             - Mul(Sq(y) \div 2, Sin(4 * l)) - Mul(Sq(e) + Sq(e) \div 4, Sin(2 * m)) IN
    Mul(r, 137509871)

\* celestial to terrestrial: frame bias, precession, nutation, rotation
Bias(v) == R1(1, R2(-3, R3(-3, v)))
Precess(d, k, v) == R3(-Zed(d, k), R2(Theta(d, k), R3(-Zeta(d, k), v)))
Nutate(d, k, v) == R1(-TrueObl(d, k), R3(-ToTurns(NutLon(d, k)), R1(MeanObl(d, k), v)))
ToTerrestrial(d, k, v) == R3(Sidereal(d, k), Nutate(d, k, Precess(d, k, Bias(v))))
=============================================================================
