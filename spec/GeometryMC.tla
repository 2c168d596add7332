------------------------------ MODULE GeometryMC -----------------------------
(* The geometry by itself: the definitions used for judging agree with each   *)
(* other (ellipsoid, horizon, orbital frame, attitude, rotation).             *)
EXTENDS Geometry
CONSTANTS STEPS
VARIABLES i, j, k
Init == i \in 0..STEPS /\ j \in 0..STEPS /\ k = 0
Next == k < 4 /\ k' = k + 1 /\ UNCHANGED <<i, j>>
Spec == Init /\ [][Next]_<<i, j, k>>
lat == (2 * i - STEPS) * (Quarter \div STEPS)
lon == (2 * j - STEPS) * (Half \div STEPS)
height == <<0, -100000, 150000, 8000000, 500000000>>[k + 1]
p == <<lat, lon, height>>
g == FromGeodetic(p)
base == FromGeodetic(<<lat, lon, 0>>)
\* x^2 + y^2 over a^2 plus z^2 over b^2 is one on the ellipsoid
Ellipsoid == LET r == Length(<<base[1], base[2], 0>>) IN Abs(Sq(Div(r, MajorAxis)) + Sq(Div(base[3], MinorAxis)) - One) <= 40
\* height is along the normal of the ellipsoid: perpendicular to a step north
Normal == LET n == <<Mul(Cos(lat), Cos(lon)), Mul(Cos(lat), Sin(lon)), Sin(lat)>> IN
    /\ Close(Sub(g, base), Scale(height, n), 8)
    /\ (Abs(lat) < Quarter - 700000 => Abs(Dot(Unit(Sub(FromGeodetic(<<lat + 500000, lon, 0>>), FromGeodetic(<<lat - 500000, lon, 0>>))), n)) <= 400)
\* the documented radius formula is the length of the position
Radius == LET c == Cos(lat) s == Sin(lat)
              a2 == Mul(Sq(2 * MajorAxis), c) b2 == Mul(Sq(2 * MinorAxis), s)
              top == Sq(a2) + Sq(b2) low == Sq(Mul(2 * MajorAxis, c)) + Sq(Mul(2 * MinorAxis, s)) IN
    Abs(Sqrt(Div(top, low)) - 2 * GeocentricRadius(lat)) <= 60
\* an oblate body: the radius falls from equator to pole
Oblate == LET r == GeocentricRadius(lat) IN MinorAxis - 3 <= r /\ r <= MajorAxis + 3
\* east, north and up are a right-handed triad; north leans to the pole
Triad == Abs(lat) > Quarter - 1000 \/
    LET e == East(lon) n == North(g, lon) z == Up(g) IN
    /\ Abs(Dot(e, n)) <= 40 /\ Abs(Dot(n, z)) <= 40 /\ Abs(Dot(e, z)) <= 40
    /\ Close(Cross(e, n), z, 60) /\ n[3] >= 0 /\ Abs(Length(n) - One) <= 40
\* the local orbital frame is a rotation; the satellite moves forward
u == Unit(<<Cos(3 * lon) \div 2, Sin(lat + 7) \div 2, 90000000>>)
Frame == LET r == g v == u IN MaxAbs(Cross(Unit(r), v)) < 20000000 \/
    LET x == LvlhX(r, v) y == LvlhY(r, v) z == LvlhZ(r) w == ToLvlh(r, v, v) IN
    /\ Close(Cross(x, y), z, 2000) /\ Abs(Dot(x, y)) <= 600 /\ Abs(Dot(y, z)) <= 600
    /\ w[1] > 0 /\ Abs(w[2]) <= 600 /\ Close(ToLvlh(r, v, Unit(r)), <<0, 0, -One>>, 600)
\* attitude: with roll and pitch within a quarter turn, the shortest rotation
\* from nadir to g is roll and pitch followed by the yaw of the definition
roll == (lat * 4) \div 5
pitch == (((2 * j - STEPS) * (Quarter \div STEPS)) * 4) \div 5
dir == <<-Mul(Sin(pitch), Cos(roll)), Sin(roll), Mul(Cos(pitch), Cos(roll))>>
E(n) == [m \in 1..3 |-> IF m = n THEN One ELSE 0]
Shortest(v) == LET c == One + dir[3] a == Div(dir[1], c) b == Div(dir[2], c) IN
    <<Mul(One - Mul(a, dir[1]), v[1]) - Mul(Mul(a, dir[2]), v[2]) + Mul(dir[1], v[3]),
      Mul(One - Mul(b, dir[2]), v[2]) - Mul(Mul(a, dir[2]), v[1]) + Mul(dir[2], v[3]),
      Mul(dir[3], v[3]) - Mul(dir[1], v[1]) - Mul(dir[2], v[2])>>
Attitude == LET a == One + dir[3] - Sq(dir[2]) b == -Mul(dir[1], dir[2]) n == Length(<<a, b, 0>>)
                c == Div(a, n) s == Div(b, n) IN
    /\ Close(Shortest(E(3)), dir, 30)
    /\ \A m \in 1..3 : LET w == R1(roll, R2(pitch, E(m))) IN
        Close(Shortest(E(m)), <<Mul(c, w[1]) + Mul(s, w[2]), Mul(c, w[2]) - Mul(s, w[1]), w[3]>>, 200)
\* celestial to terrestrial is rigid and keeps handedness
day == i * (730000 \div STEPS) - 365000
Rotation == LET a == Scale(One \div 2, u) b == Scale(One \div 2, Unit(g)) kk == j * 900 + k
                A == Published!Oriented(day, kk, a) B == Published!Oriented(day, kk, b) IN
    /\ Abs(Dot(A, B) - Dot(a, b)) <= 60
    /\ Close(Published!Oriented(day, kk, Cross(a, b)), Cross(A, B), 60)
\* in a sidereal day's 360th part a star moves a degree westwards
Westward == LET a == u kk == j * 900 A == Published!Oriented(day, kk, a) B == Published!Oriented(day, kk + 182, a)
                m == Length(<<A[1], A[2], 0>>) IN
    m < 3000000 \/ Abs(Mul(A[1], B[2]) - Mul(A[2], B[1]) + Mul(Sq(m), Sin(747529))) <= 300
=============================================================================
