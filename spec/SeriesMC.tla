------------------------------- MODULE SeriesMC ------------------------------
(* The series by themselves, over many instants and ages.                     *)
EXTENDS Series
CONSTANTS STEP
VARIABLES d, i
Ks == <<0, 1, 16384, 40000, 65535>>
Init == d \in {x \in -65000..65000 : x % (STEP * 101) = 7} \cup {x \in 0..6800 : x % STEP = 0}
            \cup {x \in -365250..365250 : x % (STEP * 1009) = 11} \cup {365250, -365250} /\ i = 1
Next == i < Len(Ks) /\ i' = i + 1 /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, i>>
k == Ks[i]
Near(x, y, tol) == Abs(Signed(x - y)) <= tol
Deg(n) == n * 745654                                         \* degrees in turns
v2 == Sq(Kilo(d, k))
\* the Moon's elongation is the difference of the mean longitudes, and so are the arguments of latitude and node
Elongated == Near(Elongation(d, k)[1], MoonMean(d, k)[1] - SunMean(d, k)[1] - Mul(Deg(19) \div 100, v2), Deg(1) \div 10)
Latitudinal == Near(Latitude(d, k)[1] + NodeOf(d, k)[1], MoonMean(d, k)[1] - Mul(Deg(16) \div 100, v2), Deg(1) \div 10)
\* the Sun's perihelion moves 17.2 degrees in 1000 years
Perihelion == Near(SunMean(d, k)[1] - Anomaly(d, k)[1] - Mul(Deg(17) + Deg(1) \div 5, Kilo(d, k)), Deg(283) - Deg(1) \div 16, Deg(1) \div 25)
\* the centre is at most 2 degrees
Centred == Abs(Centre(d, k)) <= 128 * Deg(2)
\* the two ways of writing the precession angles and the obliquity agree, within 65000 days
Coarse == Abs(d) <= 65000
Ages == Coarse => LET u == Myriad(d, 0) milli(x) == 4 * x + Mul(x, 222258176) IN
    /\ Abs(milli(Zeta(d, 0)) - Poly(LongZeta, u)) <= 60 /\ Abs(milli(Theta(d, 0)) - Poly(LongTheta, u)) <= 60
    /\ Abs(milli(Zed(d, 0)) - Poly(LongZed, u)) <= 60 /\ Abs(milli(MeanObl(d, 0)) - Poly(LongObliquity, u)) <= 60
\* Meeus, example 22.a: 1987 April 10.0
ASSUME \A j \in 1..5 : Near(Delaunay(-4650, 32768)[j][1],
    <<102126493, 70821625, 170962366, 106932681, 8390920>>[j], 200)   \* 136.9623, 94.9792, 229.2784, 143.4079, 11.2531
ASSUME Abs(Poly(LongObliquity, Myriad(-4650, 32768)) - 84387407) <= 20
\* Meeus, example 25.a: 1992 October 13.0: true longitude 199.90988, right ascension 198.38 degrees
ASSUME Near(SunTrue(-2637, 32768)[1], 149063611, 60)
ASSUME SunAscensionIs(<<147923468, 0>>, -2637, 32768, 8000) /\ ~SunAscensionIs(<<147923468 + Half, 0>>, -2637, 32768, 8000)
\* within 65000 days the fine series agree with the coarse ones of Astronomy
Fine == Coarse =>
        /\ Near(Anomaly(d, k)[1], SunAnomaly(d, k), 8) /\ Near(NodeOf(d, k)[1], MoonNode(d, k), 8) /\ Near(SunMean(d, k)[1], MeanSun(d, k), 4)
        /\ Abs(FineLon(d, k) - 100 * NutLon(d, k)) <= 400 /\ Abs(FineObl(d, k) - 100 * NutObl(d, k)) <= 400
        /\ Near(MoonMean(d, k)[1], MeanMoon(d, k), 4) /\ Abs(SolarTime(d, k) - EqTime(d, k)) <= 6
        /\ Abs(Kilo(d, k) - Cent(d, k) \div 10) <= 2 /\ Abs(Tilt(d, k) - TrueObl(d, k)) <= 60
        /\ Near(Turning(d, k), Sidereal(d, k), 40)
        /\ LET v == <<90000000, -60000000, 30000000>> IN Close(Oriented(d, k, v), ToTerrestrial(d, k, v), 80)
\* lengths are kept
Rigid == LET v == <<90000000, -60000000, 30000000>> w == Oriented(d, k, v) IN Abs(Dot(w, w) - Dot(v, v)) <= 200
ASSUME Kilo(365250, 0) = One /\ Kilo(-365250, 0) = -One /\ Myriad(3652500, 0) = One /\ Myriad(-3652500, 0) = -One /\ Myriad(1826250, 0) = Half
=============================================================================
