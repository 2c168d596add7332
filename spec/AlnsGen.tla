------------------------------- MODULE AlnsGen -------------------------------
(* Random searches: parameters and the cost change of every candidate.      *)
EXTENDS Alns, Json, Randomization
VARIABLES k
Rnd(a, b) == RandomElement(a..b)
RECURSIVE Plan(_, _)
Plan(n, wide) == IF n = 0 THEN <<>>
    ELSE <<IF wide THEN Rnd(-30 + 0 * n, 40) ELSE Rnd(-2 + 0 * n, 3)>> \o Plan(n - 1, wide)
Gen(x) ==
    LET max == IF Rnd(1, 20) = 1 THEN Rnd(30, 130) ELSE Rnd(0 * x, 14) c0 == RandomElement({0, 0, -1, 1, -7, 12, Rnd(-40, 40), Rnd(-200, 200)}) IN
    [c0 |-> c0, max |-> max, p |-> RandomElement({<<1, 1>>, <<1, 2>>, <<0, 1>>, <<9, 10>>, <<99, 100>>}),
     l |-> Rnd(0, 4), kr |-> Rnd(0, 3), ka |-> Rnd(0, 5), nD |-> Rnd(1, 4), nR |-> Rnd(1, 3),
     goal |-> IF max > 14 THEN -1000000 ELSE IF Rnd(1, 3) = 1 THEN c0 ELSE IF Rnd(1, 3) = 1 THEN -1000 ELSE c0 - Rnd(1, 8),
     mod |-> IF max > 14 THEN 0 ELSE RandomElement({0, 0, 3, 9}),
     again |-> Rnd(1, 4) = 1, kind |-> RandomElement({"int", "float"}),
     \* long searches: mostly refused candidates
     plan |-> Plan(2 * max + 2, IF max > 14 THEN Rnd(1, 4) = 1 ELSE Rnd(1, 2) = 1)]
Init == k = 0
Next == k < 1 /\ k' = k + 1 /\ PrintT("GEN " \o ToJson(Gen(k)))
GenSpec == Init /\ [][Next]_k
=============================================================================
