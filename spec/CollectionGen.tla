---------------------------- MODULE CollectionGen ---------------------------
(* Histories: all short ones over a few operations (Spec), random ones over  *)
(* all operations (GenSpec).                                                 *)
EXTENDS Collection, Json
CONSTANTS STEPS
VARIABLES hist
Rnd(S) == RandomElement(S)
Num(x) == Cardinality({i \in 1..Len(hist) : hist[i].op = x})
Reach == IF Num("many") > 0 /\ Rnd(1..3) > 1 THEN 400 ELSE 8
Bnd(x) == IF Rnd(1..4) = 1 THEN [given |-> FALSE, i |-> x] ELSE [given |-> TRUE, i |-> Rnd(-Reach..Reach)]
Main == IF Len(hist) = 0 THEN "vtw" ELSE hist[1].kind
Short ==
    {[op |-> "add", kind |-> k] : k \in Kinds \cup {"text"}}
    \cup {[op |-> "iter"], [op |-> "pairs"], [op |-> "list"], [op |-> "index", i |-> -1], [op |-> "break", n |-> 1]}
    \cup {[op |-> "next", it |-> i] : i \in 1..Num("iter")}
Init == hist = <<>>
Say == IF Len(hist') = STEPS THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE
NextShort == Len(hist) < STEPS /\ (\E e \in Short : hist' = Append(hist, e)) /\ Say
Spec == Init /\ [][NextShort]_hist
Choose(c) ==
    CASE Len(hist) = 3 /\ hist[1].kind \in Kinds /\ Rnd(1..25) = 1 -> [op |-> "many", kind |-> Main, n |-> Rnd({60, 130, 300})]
      [] c <= 5 \/ Len(hist) < 3 -> [op |-> "add", kind |-> IF hist = <<>> THEN Rnd(Kinds)
                           ELSE IF Rnd(1..4) > 1 THEN Main ELSE Rnd(Kinds \cup Junk)]
      [] c = 6 -> [op |-> "iter"]
      [] c <= 10 -> IF Num("iter") > 0 THEN [op |-> "next", it |-> Rnd(1..Num("iter"))] ELSE [op |-> "iter"]
      [] c = 11 -> [op |-> "index", i |-> Rnd(-Reach..Reach)]
      [] c = 12 -> [op |-> "slice", lo |-> Bnd(c), hi |-> Bnd(c), st |-> Rnd({-3, -2, -1, 1, 1, 1, 2, 3})]
      [] c = 13 -> [op |-> "list"]
      [] c = 14 -> [op |-> "pairs"]
      [] c = 15 -> [op |-> "break", n |-> Rnd(0..3)]
      [] c = 16 -> [op |-> "len"]
      [] c = 17 -> [op |-> "in", w |-> Rnd(1..(Len(hist) + 1))]
      [] c = 18 -> [op |-> Rnd({"reversed", "bool"})]
      [] OTHER -> [op |-> "again", i |-> Rnd(1..3)]
NextRandom == Len(hist) < STEPS /\ (\E e \in {Choose(Rnd(1..19))} : hist' = Append(hist, e)) /\ Say
GenSpec == Init /\ [][NextRandom]_hist
=============================================================================
