------------------------------ MODULE WindowsGen ----------------------------
(* Long random patterns made of runs.                                        *)
EXTENDS Windows, Json
VARIABLES k
RECURSIVE Bits(_)
Bits(n) == IF n <= 0 THEN <<>> ELSE LET b == RandomElement(BOOLEAN) m == RandomElement({1, 1, 2, 3, 5, 9}) IN
    [i \in 1..(IF m > n THEN n ELSE m) |-> b] \o Bits(n - m)
\* long ephemerides have long runs, too
RECURSIVE Long(_)
Long(n) == IF n <= 0 THEN <<>> ELSE LET b == RandomElement(BOOLEAN) m == RandomElement({1, 2, 5, 20, 60, 200}) IN
    [i \in 1..(IF m > n THEN n ELSE m) |-> b] \o Long(n - m)
\* brief passes, few and far between
RECURSIVE Brief(_)
Brief(n) == IF n <= 0 THEN <<>> ELSE LET a == RandomElement(50..700) b == RandomElement(1..3) IN
    LET m == a + b IN [i \in 1..(IF m > n THEN n ELSE m) |-> i > a] \o Brief(n - m)
Pattern(x) == IF RandomElement(1..50) = 1
    THEN \E n \in {RandomElement({257, 900, 1500, 2600})} : \E a \in {IF RandomElement(1..2) = 1 THEN Long(n) ELSE Brief(n)}, b \in {Long(n)}, m \in {RandomElement(Modes)} :
        PrintT("GEN " \o ToJson([up |-> a, sun |-> b, mode |-> m]))
    ELSE \E n \in {RandomElement(1..(40 + 0 * x))} : \E a \in {Bits(n)}, b \in {Bits(n)}, m \in {RandomElement(Modes)} :
    PrintT("GEN " \o ToJson([up |-> SubSeq(a, 1, n), sun |-> SubSeq(b, 1, n), mode |-> m]))
Init == k = 0
Next == k < 1 /\ k' = k + 1 /\ Pattern(k)
GenSpec == Init /\ [][Next]_k
=============================================================================
