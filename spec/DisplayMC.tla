------------------------------- MODULE DisplayMC -----------------------------
(* What is written is read back, and nothing malformed is read.               *)
EXTENDS Display
CONSTANTS BOUND
VARIABLES e, num
Some == <<"m", "km", "s", "rad">>
Powered == {-8, -4, -2, 0, 3, 4, 8}
Init == e \in [Range(Some) -> {x \in Powered : Abs(x) <= BOUND}] /\ num \in {TRUE, FALSE}
Next == FALSE /\ UNCHANGED <<e, num>>
Spec == Init /\ [][Next]_<<e, num>>
w == Write(Some, e, num, 726817)
r == Read(w)
Back == r.ok /\ Distinct(r) /\ r.num = num /\ \A n \in Range(Some) : Of(r, n) = e[n]
\* no proper part of it and no doubling of it is a unit with the same powers
Exact == /\ \A i \in 0..(Len(w) - 1) : LET p == Read(SubSeq(w, 1, i)) IN ~p.ok \/ (\E n \in Range(Some) : Of(p, n) # e[n]) \/ p.num # num
         /\ LET d == Read(w \o w) IN d.ok => ~Distinct(d)
\* another order of the names means the same
Order == LET p == Read(Write(<<"rad", "s", "m", "km">>, e, num, 0)) IN p.ok /\ \A n \in Range(Some) : Of(p, n) = Of(r, n)
=============================================================================
