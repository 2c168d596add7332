------------------------------- MODULE Geometry ------------------------------
(* Frames and directions (C19-C24). Positions in units of 16384 km and         *)
(* velocities in units of 16 km/s (FixedPoint, so 6 cm and 6e-5 m/s per unit); *)
(* angles in turns; instants as in Astronomy; a location is <<latitude,        *)
(* longitude, height>>.                                                       *)
EXTENDS Astronomy
Published == INSTANCE Series

\* ---- vectors of any size
MaxAbs(v) == LET a == Abs(v[1]) b == Abs(v[2]) c == Abs(v[3]) IN IF a >= b /\ a >= c THEN a ELSE IF b >= c THEN b ELSE c
Double(v) == <<2 * v[1], 2 * v[2], 2 * v[3]>>
Halve(v) == <<(v[1] + 1) \div 2, (v[2] + 1) \div 2, (v[3] + 1) \div 2>>
Neg(v) == <<-v[1], -v[2], -v[3]>>
\* scaled by a power of two to components between 1/2 and 1
RECURSIVE Fit(_)
Fit(v) == LET m == MaxAbs(v) IN IF m = 0 THEN v ELSE IF m >= One THEN Fit(Halve(v)) ELSE IF m < Half THEN Fit(Double(v)) ELSE v
Unit(v) == LET u == Fit(v) n == Norm(u) IN IF n = 0 THEN u ELSE <<Div(u[1], n), Div(u[2], n), Div(u[3], n)>>
RECURSIVE Length(_)
Length(v) == LET m == MaxAbs(v) IN
    IF m = 0 THEN 0 ELSE IF m >= One THEN 2 * Length(Halve(v)) ELSE IF m < Half THEN (Length(Double(v)) + 1) \div 2 ELSE Norm(v)
\* quarter turns
Quarter == 67108864

\* ---- the ellipsoid WGS84: a = 6378.137 km, b = 6356.752314245 km
MajorAxis == 104499397
MinorAxis == 104149030
EccSq == 1797009                    \* e^2 = 0.00669437999014
PrimeVertical(lat) == Div(MajorAxis, Sqrt(One - Mul(EccSq, Sq(Sin(lat)))))
FromGeodetic(p) ==
    LET n == PrimeVertical(p[1]) c == Mul(n + p[3], Cos(p[1])) IN
    <<Mul(c, Cos(p[2])), Mul(c, Sin(p[2])), Mul(n - Mul(n, EccSq) + p[3], Sin(p[1]))>>
GeocentricRadius(lat) == Length(FromGeodetic(<<lat, 0, 0>>))

\* ---- the horizon of a location: east, north and up (geocentric vertical)
Up(g) == Unit(g)
East(lon) == <<-Sin(lon), Cos(lon), 0>>
North(g, lon) == Cross(Up(g), East(lon))
\* the angle of which c and s are cosine and sine (up to tol) is t
IsAngle(t, c, s, tol) == Abs(Cos(t) - c) <= tol /\ Abs(Sin(t) - s) <= tol
Horizontal(u, z) == LET s == Dot(u, z) IN Sub(u, Scale(s, z))
\* elevation and azimuth of the direction of r over the horizon of g
ElevationIs(el, r, g, tol) == LET u == Unit(r) z == Up(g) IN
    IsAngle(el, Length(Horizontal(u, z)), Dot(u, z), tol)
AzimuthIs(az, r, g, lon, tol) == LET u == Unit(r) h == Length(Horizontal(u, Up(g))) IN
    Abs(Mul(h, Cos(az)) - Dot(u, North(g, lon))) <= tol /\ Abs(Mul(h, Sin(az)) - Dot(u, East(lon))) <= tol

\* ---- the local orbital frame of position r and velocity v
LvlhZ(r) == Neg(Unit(r))
LvlhY(r, v) == Neg(Unit(Cross(Unit(r), Unit(v))))
LvlhX(r, v) == Cross(LvlhY(r, v), LvlhZ(r))
ToLvlh(r, v, u) == <<Dot(LvlhX(r, v), u), Dot(LvlhY(r, v), u), Dot(LvlhZ(r), u)>>
\* ---- attitude: the shortest rotation from nadir to the direction g (LVLH) as 2-1-3 Euler angles
AttitudeIs(roll, pitch, yaw, g, tol) ==
    LET a == One + g[3] - Sq(g[2]) b == -Mul(g[1], g[2]) n == Length(<<a, b, 0>>) IN
    /\ Abs(-Mul(Sin(pitch), Cos(roll)) - g[1]) <= tol /\ Abs(Sin(roll) - g[2]) <= tol
    /\ Abs(Mul(Cos(pitch), Cos(roll)) - g[3]) <= tol /\ Cos(roll) >= 0
    /\ Abs(Mul(n, Sin(yaw)) - b) <= tol /\ Abs(Mul(n, Cos(yaw)) - a) <= tol

\* straight above the satellite no rotation is the shortest
Opposite(u, z) == Dot(u, z) < 0 /\ MaxAbs(Horizontal(u, z)) <= 30000
\* how well the yaw is determined
YawRadius(g) == Length(<<One + g[3] - Sq(g[2]), Mul(g[1], g[2]), 0>>)

\* ---- clauses
ArcTol(v) == 60 + Mul(130, MaxAbs(v))          \* 0.1 arcsecond and the model's own rounding
At(u, v, tol) == Close(u, v, tol)
Sky(x, y, tol) == LET c == Cos(x[2]) IN Abs(x[2] - y[2]) <= tol /\ Abs(Mul(Signed(x[1] - y[1]), c)) <= tol
Geodetic(x, y, tol) == Abs(x[1] - y[1]) <= tol /\ Abs(Mul(Signed(x[2] - y[2]), Cos(x[1]))) <= tol /\ Abs(x[3] - y[3]) <= tol

RotateClauses(e) ==
    UNION { LET d == e.q[i][1] k == e.q[i][2] v == e.v[i] w == e.w[i] x == e.x[i] IN
        Clause("C20.celestial_to_terrestrial", At(Published!Oriented(d, k, v), w, ArcTol(v)))
        \cup Clause("C20.terrestrial_to_celestial", At(Published!Oriented(d, k, x), v, ArcTol(v)))
        \cup Clause("C20.length", Abs(Length(w) - Length(v)) <= 14 /\ Abs(Length(x) - Length(v)) <= 14)
        : i \in 1..Len(e.v)}
    \cup Clause("C20.kept", e.kept)
    \* e.lin: indices <<a, b, c>> of samples at one instant with v[c] = v[a] + v[b]
    \cup UNION { LET t == e.lin[j] a == t[1] b == t[2] c == t[3] IN
        Clause("C20.linear", At(Add(e.w[a], e.w[b]), e.w[c], 4) /\ At(Add(e.x[a], e.x[b]), e.x[c], 4))
        \cup Clause("C20.angles", LET p == Fit(e.v[a]) r == Fit(e.v[b]) IN
            Abs(Dot(Unit(e.w[a]), Unit(e.w[b])) - Dot(Unit(p), Unit(r))) <= 100)
        : j \in 1..Len(e.lin)}

Metre == 17
Milli == 746
PathClauses(e) ==
    UNION {
        Clause("C19.gcrs_itrs_gcrs", At(e.gi[i], e.g[i], Metre))
        \cup Clause("C19.gcrs_wgs84_gcrs", At(e.gw[i], e.g[i], Metre))
        \cup Clause("C19.itrs_wgs84_itrs", At(e.iw[i], e.i[i], Metre))
        \cup Clause("C19.wgs84_path", Geodetic(e.w[i], e.wi[i], Metre) /\ Geodetic(e.w[i], e.ww[i], Metre))
        \cup Clause("C19.wgs84_itrs_wgs84", Geodetic(e.p[i], e.pw[i], Metre))
        \cup Clause("C19.wgs84_gcrs_wgs84", Geodetic(e.p[i], e.pgw[i], Metre))
        \cup Clause("C19.horizontal_path", e.polar \/ (Sky(e.ai[i], e.ag[i], Milli) /\ Sky(e.ai[i], e.aw[i], Milli)))
        \cup Clause("C19.units", At(e.iu[i], e.i[i], Metre) /\ At(e.gu[i], e.g[i], Metre) /\ Geodetic(e.w[i], e.wu[i], Metre)
                                 /\ (e.polar \/ Sky(e.ai[i], e.au[i], Milli)))
        : i \in 1..Len(e.g)}
    \* sample by sample: e.sel the chosen indices, e.s* what converting the chosen samples gave
    \cup Clause("C19.samples", \A j \in 1..Len(e.sel) : LET i == e.sel[j] IN
            /\ At(e.si[j], e.i[i], 3) /\ At(e.sg[j], e.gi[i], 3) /\ Geodetic(e.sw[j], e.w[i], 3)
            /\ (e.polar \/ Sky(e.sa[j], e.ai[i], 3)))
    \cup Clause("C19.identity", e.same)
    \cup Clause("C19.times", e.times)

SkyTol == 1342                                  \* 5e-6 of a radian: an arcsecond
\* straight up or down, or at a pole, there is no azimuth
Above(g, r) == MaxAbs(Horizontal(Unit(r), Up(g))) <= 300
Polar(loc) == Abs(loc[1]) = Quarter
SkyClauses(e) ==
    UNION { LET g == FromGeodetic(e.loc) s == e.s[i] r == Sub(s, g) az == e.a[i][1] el == e.a[i][2]
                slack == SkyTol + Div(8, IF MaxAbs(r) < 4000 THEN 4000 ELSE MaxAbs(r)) IN
        Clause("C21.elevation", ElevationIs(el, r, g, slack))
        \cup Clause("C21.elevation_range", -Quarter <= el /\ el <= Quarter)
        \cup Clause("C21.azimuth", Polar(e.loc) \/ Above(g, r) \/ AzimuthIs(az, r, g, e.loc[2], slack))
        \cup Clause("C21.azimuth_range", Polar(e.loc) \/ Above(g, r) \/ (0 <= az /\ az <= One))
        : i \in 1..Len(e.s)}
    \cup Clause("C21.kept", e.kept)

EllipsoidClauses(e) ==
    LET g == FromGeodetic(e.loc) IN
    Clause("C22.location", At(e.g, g, 12))
    \cup Clause("C22.radius", Abs(e.radius - (GeocentricRadius(e.loc[1]) + e.loc[3])) <= 12)
    \cup UNION { LET p == e.p[i] v == e.v[i] w == e.w[i] tol == 14 + MaxAbs(v) \div 16777216 IN
        Clause("C22.geodetic_to_itrs", At(e.i[i], FromGeodetic(p), 12 + MaxAbs(e.i[i]) \div 16777216))
        \cup Clause("C22.itrs_to_geodetic", At(FromGeodetic(w), v, tol))
        \cup Clause("C22.range", -Half <= w[2] /\ w[2] <= Half /\ -Quarter <= w[1] /\ w[1] <= Quarter)
        \cup Clause("C22.altitude", Abs(e.alt[i] - w[3]) <= 2)
        \cup Clause("C22.samples", Geodetic(e.one[i], w, 2) /\ Abs(e.alt1[i] - e.alt[i]) <= 2)
        : i \in 1..Len(e.p)}

OrbitClauses(e) ==
    UNION { LET r == e.r[i] v == e.v[i] a == e.R[i] b == e.V[i] n == Length(r)
                z == LvlhZ(r) speed == Length(v) tol == 12 + Mul(60, speed) IN
        Clause("C23.position", At(a, <<0, 0, -n>>, 14))
        \cup Clause("C23.velocity", At(b, ToLvlh(r, v, v), tol))
        \cup Clause("C23.in_plane", Abs(b[2]) <= 3 /\ b[1] > 0)
        \cup Clause("C23.speed", Abs(Length(b) - speed) <= 14)
        \cup Clause("C23.units", At(e.Ru[i], a, 4) /\ At(e.Vu[i], b, 4))
        \cup (IF e.rows = <<>> THEN {} ELSE LET m == e.rows[i] y == LvlhY(r, v) IN
              Clause("C23.axes", At(m[3], z, 60) /\ At(m[2], y, 600) /\ At(m[1], Cross(y, z), 600)))
        : i \in 1..Len(e.r)}
    \cup Clause("C23.kept", e.kept)

LookClauses(e) ==
    LET g == FromGeodetic(e.loc) IN
    UNION { LET s == e.s[i] v == e.v[i] r == Sub(g, s) u == Unit(r) z == LvlhZ(s)
                m == MaxAbs(r) tol == 1400 + Div(8, IF m < 4000 THEN 4000 ELSE m)
                o == e.out[i] g1 == ToLvlh(s, v, u) IN
        Clause("C24.distance", Abs(o.dist - Length(r)) <= 12)
        \cup Clause("C24.look_angle", IsAngle(o.look, Dot(u, z), Length(Horizontal(u, z)), tol) /\ 0 <= o.look /\ o.look <= Half)
        \cup Clause("C24.attitude", Opposite(u, z) \/ AttitudeIs(o.roll, o.pitch, o.yaw, g1, 2 * tol))
        \cup Clause("C24.nadir", e.nadir[i] => (\A a \in {o.roll, o.pitch, o.yaw, o.look} : Abs(Signed(a)) <= 100))
        \cup Clause("C24.independence", \A p \in Range(e.alt[i]) :
                /\ Abs(p.dist - o.dist) <= 12
                /\ LET slack == 200 + Div(17, IF m < 4000 THEN 4000 ELSE m) IN
                   /\ Abs(Signed(p.look - o.look)) <= slack
                   /\ ~Opposite(u, z) =>
                        /\ Abs(Signed(p.roll - o.roll)) <= slack
                        /\ AttitudeIs(p.roll, p.pitch, p.yaw, g1, 2 * tol)
                        /\ Mul(Cos(o.roll), Abs(Signed(p.pitch - o.pitch))) <= slack
                        /\ Mul(YawRadius(g1), Abs(Signed(p.yaw - o.yaw))) <= slack)
        : i \in 1..Len(e.s)}
    \cup Clause("C24.kept", e.kept)

EventClauses(e) ==
    CASE e.op = "C20" -> RotateClauses(e)
      [] e.op = "C19" -> PathClauses(e)
      [] e.op = "C21" -> SkyClauses(e)
      [] e.op = "C22" -> EllipsoidClauses(e)
      [] e.op = "C23" -> OrbitClauses(e)
      [] e.op = "C24" -> LookClauses(e)
      [] e.op = "crash" -> {e.prop \o ".crash"}
=============================================================================
