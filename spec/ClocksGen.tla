------------------------------- MODULE ClocksGen -----------------------------
(* Lists of instants and longitudes.                                          *)
EXTENDS Clocks, TLC, Json
VARIABLES k
Rnd(S) == RandomElement(S)
D(x) == LET c == Rnd(1..5) IN IF c = 5 THEN Rnd(-365249..365249) ELSE IF c = 1 THEN Rnd(-400..400) ELSE IF c = 2 THEN Rnd(5000..12000) ELSE IF c = 3 THEN Rnd(-65000..65000) ELSE Rnd({0, -1, 1, 36525, -36525}) + 0 * x
K(x) == LET c == Rnd(1..4) IN IF c = 1 THEN Rnd({0, 1, 32767, 32768, 32769, 65535, 16384, 49152}) ELSE Rnd(0..65535) + 0 * x
\* longitudes in 1/24000 degree, some of them whole degrees
N(x) == LET c == Rnd(1..5) IN IF c = 1 THEN Rnd({-4320000, 4320000, 0, 2160000, -2160000, 360000, 1, -1}) ELSE IF c = 2 THEN 24000 * Rnd(-180..180) ELSE Rnd(-4320000..4320000) + 0 * x
\* instants around sidereal midnight, and longitudes at which one of the clocks reads about 0 h
Midnight(y) == LET x == (Day - MeanSidereal(y, 0)) % Day a == x \div 13220 IN a + (x - a * 13219 - (a * 7) \div 10) \div 13220
Zero(x) == LET r == x % Day h == IF r > Day \div 2 THEN r - Day ELSE r IN -(h \div 100)
Low(x) == IF x < -4320000 THEN -4320000 ELSE IF x > 4320000 THEN 4320000 ELSE x
Row(x) == LET y == D(x) c == Rnd(1..6)
              z == IF c = 1 THEN (Midnight(y) + Rnd(-1..1)) % 65536 ELSE K(x)
              r == CASE c = 2 -> MeanSolar(z, 0) [] c = 3 -> TrueSolar(y, z, 0) [] c = 4 -> MeanSidereal(y, z) + Rnd({0, Equinoxes(y, z)}) [] OTHER -> 0 IN
          IF c \in {2, 3, 4} THEN <<y, z, Low(Zero(r + Rnd({0, 432000000})) + Rnd(-2..2))>> ELSE <<y, z, N(x)>>
List(x) == LET n == Rnd({1, 2, 3, 6}) IN [i \in 1..n |-> Row(i)]
\* now and then one longitude for all times
Same(q) == IF Rnd(1..3) = 1 THEN [i \in 1..Len(q) |-> <<q[i][1], q[i][2], q[1][3]>>] ELSE q
Init == k = 0
Next == k < 1 /\ k' = k + 1 /\ \E q \in {List(k)} : \E p \in {Same(q)} : PrintT("GEN " \o ToJson(p))
GenSpec == Init /\ [][Next]_k
=============================================================================
