------------------------------- MODULE AlnsMC -------------------------------
(***************************************************************************)
(* The search itself, explored exhaustively on small costs with two        *)
(* operators of each kind and decay parameter 1 (weights are scores / 6).  *)
(***************************************************************************)
EXTENDS Alns
VARIABLES m, P, run, hist, acc

Vals == {-2, -1, 0, 1}
Goal(v) == v = -2
Sol(t, v) == [tag |-> t, val |-> v, cp |-> Goal(v), dg |-> t]
W(x) == (x * 1000000) \div 6

Init == /\ P \in [max : 0..3, p : {<<1, 1>>, <<0, 1>>, <<1, 2>>}, l : {4}, kr : {1}, ka : {1}, c0 : Vals, nD : {2}, nR : {2}]
        /\ m = Begin(Sol(0, P.c0)) @@ [wd |-> <<W(6), W(6)>>, wr |-> <<W(6), W(6)>>, newbest |-> FALSE]
        /\ run = "on" /\ hist = <<>> /\ acc = "none"

Pick(w, i) == w[i] > 0 \/ Sum(w) = 0
Iterate ==
    /\ run = "on" /\ m.n < P.max /\ ~m.best.cp
    /\ \E i, j \in 1..2, v \in Vals, a \in BOOLEAN :
        /\ Pick(m.wd, i) /\ Pick(m.wr, j)
        /\ LET start == m.cur c == Sol(m.n + 1, v)
               d == [i |-> i, k |-> 1, in |-> start, wd |-> m.wd, wr |-> m.wr]
               m1 == AfterDestroy(m, d)
               m2 == AfterRepair(m1, [j |-> j, k |-> 1, in |-> start.tag, out |-> c])
               ok == IF v <= start.val THEN a ELSE a => ~MustReject(v - start.val, start.val, P, m.n)
               s == CHOOSE s \in Score(m2, IF a THEN "yes" ELSE "no") : TRUE
           IN /\ ok
              /\ m' = [m2 EXCEPT !.cur = IF a THEN c ELSE start, !.cand = NoSol,
                          !.wd[i] = NewWeight(m.wd[i], s, P), !.wr[j] = NewWeight(m.wr[j], s, P)]
              /\ hist' = Append(hist, v)
    /\ UNCHANGED <<P, run, acc>>
Stop == run = "on" /\ (m.n = P.max \/ m.best.cp) /\ run' = "done" /\ UNCHANGED <<m, P, hist, acc>>
Next == Iterate \/ Stop
Spec == Init /\ [][Next]_<<m, P, run, hist, acc>> /\ WF_<<m, P, run>>(Next)

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the best is the cheapest ever seen, never worse than the start
BestIsMin == m.best.val = Min({s.val : s \in m.seen}) /\ m.best.val <= P.c0
\* every candidate so far is accounted for, at most max of them
Bounded == m.n <= P.max /\ Cardinality(m.seen) <= P.max + 1
\* a complete best solution is never searched on
NoWaste == \A i \in 1..(Len(hist) - 1) : ~\E k \in 1..i : Goal(hist[k])
WeightsInRange == \A i \in 1..2 : m.wd[i] \in 0..W(6) /\ m.wr[i] \in 0..W(6)
\* only worse candidates are refused: the current solution never gets better by refusing
CurrentSeen == m.cur \in m.seen
\* with a zero starting cost (or after the temperature is gone) the current cost never rises
Frozen == [][(P.c0 = 0 \/ (P.p[1] = 0 /\ m.n > 0)) => m'.cur.val <= m.cur.val]_<<m, P, run, hist, acc>>
Ends == <>(run = "done")
=============================================================================
