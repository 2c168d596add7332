------------------------------- MODULE TextGen -------------------------------
(* Histories of text writers, objects to save and locations to print.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES k
Rnd(S) == RandomElement(S)
Words == {"a", "Height", "Ground Track", "x: y", "value=1", "-rate", "X", "Satellite velocity in ITRS", "-", "0"}
Names == {"out", "out.txt", "out.v1", "a.txt.b", "data.TXT", "txt", "notes.tx", "my file", "sub/out", "sub/out.txt", "x.text"}
Formats == {"%.15f", "%.3f", "%+.2f", "%10.4f", "%.6e", "%g", "%d"}
\* thousandths
Number(z) == LET c == Rnd(1..6) IN IF c = 1 THEN Rnd({0, -1, 1, 999, 1000, -1000, 500, 2000000000, -2000000000})
             ELSE IF c = 2 THEN Rnd(-100..100) ELSE IF c = 3 THEN Rnd(-1000000000..1000000000) * Rnd(1..2) ELSE Rnd(-200000..200000) + 0 * z
ColumnOf(z, rows) == [label |-> Rnd(Words \cup {""}), unit |-> Rnd({"", "", "km", "deg", "m2", "kms"}), kind |-> Rnd({"float", "float", "int", "str", "bool", "float32", "mixed"}),
                      values |-> [i \in 1..rows |-> Number(i)]]
\* also tables of many rows
Columns(z) == LET long == Rnd(1..40) = 1 rows == IF long THEN Rnd({130, 1001, 2100}) ELSE Rnd({1, 1, 2, 3, 7}) n == IF long THEN Rnd({1, 2}) ELSE Rnd({1, 2, 3, 5}) IN [i \in 1..n |-> ColumnOf(i, rows)]
Params(z) == LET n == Rnd(1..3) IN [i \in 1..n |-> <<Rnd(Words), Rnd(Words \cup {""})>>]
Layer(z) == LET c == Rnd(1..7) IN   \* at least one part
    [act |-> "add", sub |-> IF c \in {1, 3, 5, 7} THEN Rnd(Words) ELSE "", params |-> IF c \in {2, 3, 6, 7} THEN Params(z) ELSE <<>>,
     cols |-> IF c \in {4, 5, 6, 7} THEN Columns(z) ELSE <<>>, format |-> Rnd(Formats)]
StepOf(z) == LET c == Rnd(1..8) IN IF c <= 5 THEN Layer(z) ELSE IF c <= 7 THEN [act |-> "save"] ELSE [act |-> "new", header |-> Rnd(Words \cup {""})]
Files(z) == LET n == Rnd(1..5) IN
    [op |-> "file", name |-> Rnd(Names), steps |-> <<[act |-> "new", header |-> Rnd(Words \cup {""})]>> \o [i \in 1..n |-> StepOf(i)] \o <<[act |-> "save"]>>]

Objects(z) == [op |-> "object", name |-> Rnd(Names),
               kind |-> Rnd({"GCRS", "ITRS", "LVLH", "WGS84", "AzEl", "Attitude", "Satellite", "Satellite", "VisibleTimeWindow", "ObservationWindow", "ObservationWindow"}),
               vel |-> Rnd({TRUE, FALSE}), given |-> Rnd({"GCRS", "ITRS"}), size |-> IF Rnd(1..40) = 1 THEN Rnd({130, 1001, 2100}) ELSE Rnd({1, 2, 3, 9}), seed |-> Rnd(1..1000000) + 0 * z]

\* thousandths of an arcsecond: anywhere, or near a full second, minute, degree
Near(z) == Rnd({-15, -6, -5, -4, -1, 0, 1, 4, 5, 6, 15}) + 0 * z
Angle(z, degrees) == LET c == Rnd(1..5) IN
    IF c = 1 THEN Rnd(0..degrees - 1) * 3600000 + Rnd(0..3599999)
    ELSE IF c = 2 THEN Rnd(1..degrees - 1) * 3600000 + Near(z)
    ELSE IF c = 3 THEN Rnd(0..degrees - 1) * 3600000 + Rnd(1..59) * 60000 + Near(z)
    ELSE IF c = 4 THEN Rnd({0, 1, 4, 5, 6, 9994, 9995, 9996, 59994, 59995, 59996, 3599994, 3599995, 3599996, degrees * 3600000})
    ELSE Rnd(0..10) * 3600000 + Rnd(0..59) * 60000 + Rnd(0..59) * 1000 + Near(z) + 20
Height(z) == LET c == Rnd(1..4) IN IF c = 1 THEN Rnd({0, 4, 5, 6, 9, 995, 999, 994}) ELSE IF c = 2 THEN Rnd(0..2000) ELSE IF c = 3 THEN Rnd(0..9000000) ELSE Rnd(0..2000000000) + 0 * z
Iso(z) == [op |-> "iso", lat |-> Rnd({1, -1}) * Angle(z, 90), lon |-> Rnd({1, -1}) * Angle(z, 180), h |-> Rnd({1, 1, -1}) * Height(z),
           angle |-> Rnd({"deg", "rad", "arcmin", "arcsec", "hourangle"}), unit |-> Rnd({"km", "m", "ft", "mi", "cm"}), number |-> Rnd({"float", "float", "int", "numpy"})]
Pick(z) == CASE IOEnv.KIND = "file" -> Files(z) [] IOEnv.KIND = "object" -> Objects(z) [] IOEnv.KIND = "iso" -> Iso(z)
Init == k = 0
Next == k < 1 /\ k' = k + 1 /\ \E q \in {Pick(k)} : PrintT("GEN " \o ToJson(q))
GenSpec == Init /\ [][Next]_k
=============================================================================
