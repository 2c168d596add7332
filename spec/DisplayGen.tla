------------------------------ MODULE DisplayGen -----------------------------
(* Units, quantities, locations and windows to print.                         *)
EXTENDS UnitsGen
Number(z) == LET c == Rnd(1 + 0 * z, 5) IN   \* a number with a decimal exponent
    [m |-> IF c = 1 THEN RandomElement({0, 1, -1, 2451545, 10, 1000}) ELSE Rnd(-999999999, 999999999), x |-> RandomElement({0, 0, 0, -3, -9, -15, 6}),
     kind |-> RandomElement({"float", "float", "int", "numpy"})]
Angle(z, deg) == [m |-> Rnd(-deg * 100000 + 0 * z, deg * 100000), x |-> -5, kind |-> RandomElement({"float", "float", "int", "numpy"})]
Place(z) == [lat |-> Angle(z, 90), lon |-> Angle(z, 180), h |-> Number(z), angle |-> RandomElement({"deg", "deg", "rad", "arcmin", "hourangle"}),
             length |-> RandomElement({"km", "m", "ft"})]
Window(z) == [start |-> Number(z), stop |-> Number(z), place |-> Place(z), unit |-> RandomElement({"s", "min", "hr", "dy"})]
Shown(z) ==
    LET c == Rnd(1 + 0 * z, 10) F == Factors(Rnd(1, 5)) IN
    IF c <= 6 THEN [op |-> "unit", a |-> Numbered(Whole(Split(F))), q |-> Number(z)]
    ELSE IF c = 7 THEN [op |-> "location", place |-> Place(z)]
    ELSE [op |-> IF c = 8 THEN "visible" ELSE "observation", windows |-> [i \in 1..RandomElement({0, 1, 1, 2, 4}) |-> Window(i)]]
Step == k < 1 /\ k' = k + 1 /\ PrintT("GEN " \o ToJson(Shown(k)))
ShowSpec == Init /\ [][Step]_k
=============================================================================
