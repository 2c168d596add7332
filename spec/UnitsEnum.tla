------------------------------ MODULE UnitsEnum -------------------------------
(* Every predefined unit with its defined size, and every pair of units.     *)
EXTENDS Units, Json
VARIABLES i, j
Init == i = 1 /\ j = 0
Case == IF j = 0 THEN [w |-> "size", n |-> Names[i], size |-> Size(Names[i]), base |-> Base(DimOf(Names[i]))]
        ELSE [w |-> "pair", a |-> Names[i], b |-> Names[j],
              c |-> {n \in Range(Names) : DimOf(n) = DimOf(Names[i])}]
Next == /\ i <= Len(Names)
        /\ PrintT("GEN " \o ToJson(Case))
        /\ IF j = Len(Names) THEN i' = i + 1 /\ j' = 0 ELSE i' = i /\ j' = j + 1
GenSpec == Init /\ [][Next]_<<i, j>>
=============================================================================
