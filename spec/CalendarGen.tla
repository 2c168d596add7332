----------------------------- MODULE CalendarGen -----------------------------
(* Lists of instants, biased to the ends of months, years and calendars.      *)
EXTENDS Calendar, Json
VARIABLES k
Last == 5373484 \* 31 December 9999
Rnd(S) == RandomElement(S)
Edge(x) == LET y == Rnd(-4711..9998) c == Rnd(1..8) IN
    CASE c = 1 -> Number([y |-> y, m |-> 1, d |-> 1]) + Rnd(-2..2)
      [] c = 2 -> Number([y |-> y, m |-> 3, d |-> 1]) + Rnd(-3..2)
      [] c = 3 -> Number([y |-> y, m |-> Rnd(1..12), d |-> 1]) + Rnd(-2..2)
      [] c = 4 -> 2299161 + Rnd(-15..15)
      [] c = 5 -> Number([y |-> (y \div 100) * 100, m |-> 3, d |-> 1]) + Rnd(-3..2)
      [] c = 6 -> Number([y |-> Rnd(1583..2200), m |-> 1, d |-> 1]) + Rnd(0..366)
      [] OTHER -> Rnd(0..Last) + 0 * x
Day(x) == IF Rnd(1..5) = 1 THEN 2451545 + Rnd(-20000..20000) ELSE Edge(x)
Valid(J) == IF J < 0 THEN 0 ELSE IF J > Last THEN Last ELSE J
Sec(x) == LET c == Rnd(1..10) IN
    CASE c = 1 -> 0 [] c = 2 -> 43200 [] c = 3 -> 86399 [] c = 4 -> Rnd({1, 60, 3600, 43199, 43201, 86340}) [] OTHER -> Rnd(0..86399) + 0 * x
Micro(x) == LET c == Rnd(1..3) IN IF c = 1 THEN 0 ELSE IF c = 2 THEN Rnd({1, 999999, 500000}) ELSE Rnd(0..999999) + 0 * x
List(x) == LET n == Rnd({1, 2, 3, 5, 8}) IN [i \in 1..n |-> <<Valid(Day(i)), Sec(i), Micro(i)>>]
Init == k = 0
Next == k < 1 /\ k' = k + 1 /\ \E q \in {List(k)} : PrintT("GEN " \o ToJson(q))
GenSpec == Init /\ [][Next]_k
=============================================================================
