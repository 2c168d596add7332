------------------------------- MODULE SeriesGen -----------------------------
(* Lists of instants, of ages and of latitudes.                               *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES k
Rnd(S) == RandomElement(S)
D(x) == LET c == Rnd(1..6) IN IF c = 5 THEN Rnd(-365249..365249) ELSE IF c = 6 THEN Rnd({365249, -365247, 182625, -182625, 73050, -73050, 146100}) + Rnd(-2..0) ELSE IF c = 1 THEN Rnd(-400..400) ELSE IF c = 2 THEN Rnd(5000..12000) ELSE IF c = 3 THEN Rnd(-65000..65000) ELSE Rnd({0, -1, 1, 36525, -36525, 65000, -65000}) + 0 * x
K(x) == LET c == Rnd(1..4) IN IF c = 1 THEN Rnd({0, 1, 32767, 32768, 32769, 65535, 16384, 49152}) ELSE Rnd(0..65535) + 0 * x
Instants(x) == [op |-> "instants", q |-> [i \in 1..Rnd({1, 2, 3, 5}) |-> <<D(i), K(i)>>]]
Ages(x) == [op |-> "ages", q |-> [i \in 1..Rnd({1, 2, 4}) |-> IF Rnd(1..4) = 1 THEN Rnd({0, 3652500, -3652500, 36525, -1826250}) ELSE Rnd(-3652500..3652500)]]
Latitudes(x) == [op |-> "latitudes", q |-> [i \in 1..Rnd({1, 3}) |-> IF Rnd(1..5) = 1 THEN Rnd({0, 262144, -262144, 131072}) ELSE Rnd(-262144..262144)]]
Init == k = 0
Next == k < 1 /\ k' = k + 1 /\ \E c \in {Rnd(1..8)} :
    \E p \in {IF c <= 5 THEN Instants(k) ELSE IF c <= 7 THEN Ages(k) ELSE Latitudes(k)} : PrintT("GEN " \o ToJson(p))
GenSpec == Init /\ [][Next]_k
=============================================================================
