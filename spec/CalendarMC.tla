------------------------------ MODULE CalendarMC -----------------------------
(* The closed forms against the day automaton: from 1 January of every year   *)
(* in YEARS the automaton runs to the next 1 January.                         *)
EXTENDS Calendar
CONSTANTS STRIDE
VARIABLES c, J, k
Years == {y \in -4712..9999 : y % STRIDE = 0 \/ y \in 1570..1605 \/ y \in {-4712, -4711, -1, 0, 1, 4, 100, 1500, 1700, 1800, 1900, 2000, 2100}}
Init == \E y \in Years : c = [y |-> y, m |-> 1, d |-> 1] /\ J = Number(c) /\ k = 1
Next == /\ k <= 366 /\ (c.m > 1 \/ c.d > 1 \/ k = 1)
        /\ c' = Tomorrow(c) /\ J' = J + 1
        /\ k' = IF c.y = 1582 /\ c.m = 10 /\ c.d = 4 THEN k + 11 ELSE k + 1
Spec == Init /\ [][Next]_<<c, J, k>>
ClosedForms == Civil(J) = c /\ Number(c) = J
Position == (k <= 366 \/ c.m = 12) => (IF c.m = 1 /\ c.d = 1 THEN 1 ELSE k) = DayOfYear(c)
ASSUME Civil(0) = First
ASSUME Civil(2299160) = [y |-> 1582, m |-> 10, d |-> 4] /\ Civil(2299161) = [y |-> 1582, m |-> 10, d |-> 15]
ASSUME Civil(2451545) = [y |-> 2000, m |-> 1, d |-> 1]
=============================================================================
