------------------------------- MODULE SchedMC -------------------------------
(***************************************************************************)
(* Behaviours of the scheduling container: every interleaving of operators *)
(* on small instances, checked against the requirements of Scheduling.tla. *)
(* TLC shows that the requirements are satisfiable (the reference operators *)
(* meet every step clause) and that they imply the state invariants.       *)
(***************************************************************************)
EXTENDS Scheduling

VARIABLES S, h, prev, last

W(r, s) == [rise |-> r, set |-> s, ps |-> <<>>]
WP(r, s, ps) == [rise |-> r, set |-> s, ps |-> ps]
R(dl, du, p, q, lk, ws) == [dl |-> dl, dur |-> du, pri |-> p, q |-> q, look |-> lk, wins |-> ws]

\* instances: ticks are arbitrary integers here
I1 == << R(40, 2, 3, 3, NoLook, <<W(0, 12), W(16, 28)>>),
         R(40, 2, 5, 3, NoLook, <<W(2, 14)>>),
         R(40, 4, 1, 3, NoLook, <<W(0, 16), W(4, 36)>>) >>
I2 == << R(20, 2, 2, 8, NoLook, <<W(0, 24), W(16, 28)>>),
         R(28, 2, 2, 3, -5, <<WP(0, 8, <<<<0, 9>>, <<2, 3>>, <<4, -4>>, <<6, -6>>, <<8, -9>>>>),
                              WP(4, 10, <<<<4, 3>>, <<6, 1>>, <<8, -1>>, <<10, -4>>>>)>>),
         R(40, 6, 7, 1, NoLook, <<W(2, 22)>>) >>
I3 == << R(40, 2, 4, 3, NoLook, <<W(0, 12), W(2, 14)>>),
         R(40, 2, 4, 3, NoLook, <<W(0, 12), W(4, 16)>>),
         R(18, 2, 9, 3, NoLook, <<W(2, 14), W(12, 24)>>) >>

Unscheduled(inst) == [r \in Reqs(inst) |-> <<0, 0, 0>>]
Start0(inst) == [ord |-> [i \in 1..Len(inst) |-> i],
                 wl |-> [r \in Reqs(inst) |-> [i \in 1..Len(inst[r].wins) |-> i]],
                 sc |-> Unscheduled(inst), cnt |-> 0,
                 dg |-> [r \in Reqs(inst) |-> r]]

\* all orders of a container satisfying a criterion: model all tie breaks
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Orders(P(_)) == {f \in Perms(Len(S)) : P(f)}
WlOrders(P(_)) == {wl \in [Reqs(S) -> UNION {Perms(n) : n \in 1..2}] :
                     /\ \A r \in Reqs(S) : Len(wl[r]) = Len(S[r].wins)
                     /\ P([h EXCEPT !.wl = wl])}
SubsetsOf(T, n) == {x \in SUBSET T : Cardinality(x) = n}

Do(e, g) == h' = g /\ prev' = h /\ last' = e /\ S' = S
Count(sc) == Cardinality({r \in Reqs(S) : sc[r][1] # 0})
WithSc(g, sc) == [g EXCEPT !.sc = sc, !.cnt = Count(sc)]

Insert(op, k) ==
    \E g \in CASE op = "greedy" -> {[h EXCEPT !.ord = o] : o \in Orders(LAMBDA s : ByDecPriority(S, s))}
               [] op = "minopp" -> {[h EXCEPT !.ord = o] : o \in Orders(LAMBDA s : ByIncOpportunity(S, s))}
               [] op = "minconf" -> {[h EXCEPT !.wl = w] : w \in WlOrders(LAMBDA x : WinsByDegree(S, x))}
               [] op = "initialize" -> {[h EXCEPT !.ord = o, !.wl = w] :
                       o \in Orders(LAMBDA s : ByDecPriority(S, s)),
                       w \in WlOrders(LAMBDA x : WinsByRise(S, x))} :
        Do([op |-> op, k |-> k], WithSc(g, PlaceReqs(S, g.sc, g.ord, k, g.wl)))

Remove(op, k) ==
    \E rem \in SubsetsOf(Scheduled(h), Min2(k, Cardinality(Scheduled(h)))) :
        LET g == WithSc(h, [r \in Reqs(S) |-> IF r \in rem THEN <<0, 0, 0>> ELSE h.sc[r]]) IN
        /\ "C07.choice" \notin RemovalClauses(S, op, k, h, g)
        /\ Do([op |-> op, k |-> k], g)

Init == /\ S \in {I1, I2, I3}
        /\ h = Start0(S) /\ prev = h /\ last = [op |-> "none"]
Next == \/ \E op \in {"greedy", "minopp", "minconf"}, k \in 1..3 : Insert(op, k)
        \/ Insert("initialize", 3)
        \/ \E op \in Removals, k \in 0..2 : Remove(op, k)
Spec == Init /\ [][Next]_<<S, h, prev, last>>

\* prev and last are history: states are identified by S and h only
View == <<S, h>>

InvFeasible == FeasibleClauses(S, h) = {}
InvDisjoint == OverlapClauses(h) = {}
InvShape == ShapeClauses(S, h) = {}
\* an unscheduled request after a full insertion has no window left to use
StepOK == [][StepClauses(S, last', h, h') = {}]_<<S, h, prev, last>>
\* no behaviour of the model reaches a schedule that beats "everything":
InvCost == SumPri(S, Scheduled(h)) <= SumPri(S, Reqs(S))
=============================================================================
