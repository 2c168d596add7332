------------------------------ MODULE WindowsMC -----------------------------
(* The station's log against the maximal runs, for all patterns up to MAXN;  *)
(* the patterns are printed to be replayed into the implementation.          *)
EXTENDS Windows, Json
CONSTANTS MAXN, PRINTN
VARIABLES up, sun, mode, i, st
vars == <<up, sun, mode, i, st>>
Bits(n) == [1..n -> BOOLEAN]
Init == /\ \E n \in 1..MAXN : up \in Bits(n)
        /\ mode \in Modes
        /\ sun \in IF mode = "any" THEN {[j \in 1..Len(up) |-> (j * 7) % 3 = 1]} ELSE Bits(Len(up))
        /\ i = 1 /\ st = Start
Next == /\ i <= Len(up)
        /\ st' = Watch(st, i, Seen(up, sun, mode)[i], Len(up))
        /\ i' = i + 1 /\ UNCHANGED <<up, sun, mode>>
        /\ IF i = 1 /\ Len(up) <= PRINTN THEN PrintT("GEN " \o ToJson([up |-> up, sun |-> sun, mode |-> mode])) ELSE TRUE
Spec == Init /\ [][Next]_vars
Done == i > Len(up)
Exact == Done => st.log = Want(up, sun, mode) /\ st.log = Fast(up, sun, mode)
\* windows cover exactly the seen samples and never overlap
Cover == LET W == Want(up, sun, mode) seen == Seen(up, sun, mode) IN
    /\ \A j \in 1..Len(up) : seen[j] = (\E w \in Range(W) : j <= w[2] /\ (j > w[1] \/ (j = 1 /\ w[1] = 1 /\ seen[1])))
    /\ \A a, b \in 1..Len(W) : a < b => W[a][2] < W[b][1] + 1
\* day and night windows partition what is seen at any time
Split == \A j \in 1..Len(up) : Seen(up, sun, "any")[j] = (Seen(up, sun, "day")[j] # Seen(up, sun, "night")[j])
=============================================================================
