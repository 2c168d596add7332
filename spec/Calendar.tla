------------------------------- MODULE Calendar ------------------------------
(* The civil calendar of Julian dates (C16): day number J is the civil day    *)
(* from Julian date J - 0.5 to J + 0.5; day 0 is 1 January -4712.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in 1..Len(s)}
Clause(name, ok) == IF ok THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x

\* ---- the calendar as an automaton over days: every day has a successor
First == [y |-> -4712, m |-> 1, d |-> 1]
Leap(y) == y % 4 = 0 /\ (y <= 1582 \/ y % 100 # 0 \/ y % 400 = 0)
Days(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
Tomorrow(c) ==
    IF c = [y |-> 1582, m |-> 10, d |-> 4] THEN [c EXCEPT !.d = 15]
    ELSE IF c.d < Days(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
    ELSE IF c.m < 12 THEN [c EXCEPT !.m = @ + 1, !.d = 1]
    ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]

\* ---- closed forms, model checked against the automaton
\* days before month m of a year counted from March
RECURSIVE Before(_)
Before(i) == IF i = 0 THEN 0 ELSE Before(i - 1) + (CASE i \in {1, 3, 5, 6, 8, 10, 11} -> 31 [] i = 12 -> 0 [] OTHER -> 30)
Offset == [i \in 0..11 |-> Before(i)]
\* years run from 1 March; -4800 is a leap year of both calendars
Number(c) ==
    LET a == IF c.m <= 2 THEN c.y + 4799 ELSE c.y + 4800
        i == IF c.m <= 2 THEN c.m + 9 ELSE c.m - 3
        n == 365 * a + a \div 4 + Offset[i] + c.d IN
    IF c.y > 1582 \/ (c.y = 1582 /\ (c.m > 10 \/ (c.m = 10 /\ c.d >= 15)))
    THEN n - a \div 100 + a \div 400 - 32045 ELSE n - 32083
Civil(J) ==
    LET greg == J >= 2299161
        \* days since 1 March -4800 in the calendar that applies
        n == IF greg THEN J + 32044 ELSE J + 32082
        c4 == IF greg THEN (4 * n + 3) \div 146097 ELSE 0
        r == IF greg THEN n - (146097 * c4) \div 4 ELSE n
        a == (4 * r + 3) \div 1461
        q == r - (1461 * a) \div 4
        i == CHOOSE k \in 0..11 : Offset[k] <= q /\ (k = 11 \/ q < Offset[k + 1])
        y == 100 * c4 + a - 4800 IN
    [y |-> IF i >= 10 THEN y + 1 ELSE y, m |-> IF i >= 10 THEN i - 9 ELSE i + 3, d |-> q - Offset[i] + 1]
\* position of the date (m, d) in a year of the leap status of y
RECURSIVE DaysTo(_, _)
DaysTo(y, m) == IF m = 1 THEN 0 ELSE DaysTo(y, m - 1) + Days(y, m - 1)
DayOfYear(c) == DaysTo(c.y, c.m) + c.d

\* ---- instants: day number, second of the day, microsecond; within a
\* quarter of a millisecond, also across midnight
Near(J, s, u, K, t, v, tol) ==
    /\ Abs(J - K) <= 1
    /\ LET ds == (J - K) * 86400 + s - t IN Abs(ds) <= 2 /\ Abs(ds * 1000000 + u - v) <= tol

\* e.days: the dates asked for [J, s, u]; e.y, e.m, e.d, e.s, e.u: the answers,
\* as calendar dates and second and microsecond of the day
EventClauses(e) ==
    CASE e.op = "crash" -> {"C16.crash"}
      [] e.op = "civil" ->
            Clause("C16.length", Len(e.out) = Len(e.days))
            \cup UNION {LET q == e.days[i] o == e.out[i] c == [y |-> o.y, m |-> o.m, d |-> o.d] IN
                 Clause("C16.civil", /\ o.m \in 1..12 /\ o.d \in 1..31 /\ o.y \in -4712..10000
                                     /\ Civil(Number(c)) = c)
                 \cup Clause("C16.fraction", /\ o.m \in 1..12 /\ o.d \in 0..32 /\ Abs(o.y) < 20000
                                             /\ Near(q[1], q[2], q[3], Number(c), o.s, o.u, 250))
                 : i \in 1..(IF Len(e.out) < Len(e.days) THEN Len(e.out) ELSE Len(e.days))}
      [] e.op = "doy" ->
            Clause("C16.length", Len(e.out) = Len(e.days))
            \cup Clause("C16.day_of_year", \A i \in 1..Len(e.out) :
                    i <= Len(e.days) => e.out[i] = DayOfYear(Civil(e.days[i][1])))
=============================================================================
