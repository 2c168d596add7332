-------------------------------- MODULE Alns --------------------------------
(***************************************************************************)
(* Adaptive large neighbourhood search, as a transition system over        *)
(*   [cur, best, cand, n, phase, used, seen]                               *)
(* A solution is [tag, val, cp, dg]: identity, cost, completeness, digest. *)
(* Parameters P of a run: [max, p = <<num, den>>, l (quarters), kr, ka,    *)
(* nD, nR, c0].                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoSol == [tag |-> -1, val |-> 0, cp |-> FALSE, dg |-> 0]
Abs(x) == IF x < 0 THEN -x ELSE x
Clause(name, ok) == IF ok THEN {} ELSE {name}
Range(s) == {s[i] : i \in 1..Len(s)}

Begin(s) == [cur |-> s, best |-> s, cand |-> NoSol, n |-> 0, phase |-> "idle",
             used |-> <<0, 0>>, seen |-> {s}]

RECURSIVE Pow(_, _, _)
Pow(b, k, cap) == IF k = 0 THEN 1 ELSE LET x == b * Pow(b, k - 1, cap) IN IF x > cap THEN cap ELSE x

\* Acceptance probability of a candidate worse by d in iteration k (from 0),
\* starting cost c0, current cost c:  2^-(Num/Den), Den = 0: never accepted.
ExpNum(d, P, k) == 2000 * d * (IF P.p[1] <= 1 THEN Pow(P.p[2], k, 4096) ELSE 1)
ExpDen(c, P, k) == IF P.p[1] = 0 /\ k > 0 THEN 0 ELSE Abs(P.c0 * c)
MustReject(d, c, P, k) ==
    LET den == ExpDen(c, P, k) IN den = 0 \/ ExpNum(d, P, k) > 40 * den

\* What iteration m.n - 1 may have scored, given whether its candidate was
\* accepted ("yes", "no", "unknown").
Score(m, acc) ==
    IF m.newbest THEN {3}
    ELSE IF m.cand.val < m.cur.val THEN {2}
    ELSE CASE acc = "yes" -> {1} [] acc = "no" -> {0} [] OTHER -> {0, 1}

\* weights are scaled by 10^6
NewWeight(w, s, P) == ((4 - P.l) * w) \div 4 + (P.l * s * 1000000) \div 24
WeightsOK(old, new, used, scores, P) ==
    \/ old = <<>> \/ new = <<>>
    \/ /\ Len(new) = Len(old)
       /\ \A i \in 1..Len(old) : i # used => new[i] = old[i]
       /\ \E s \in scores : Abs(new[used] - NewWeight(old[used], s, P)) <= 3

\* N drawings with weights w gave counts c, within six standard deviations
RECURSIVE Sum(_)
Sum(w) == IF w = <<>> THEN 0 ELSE Head(w) + Sum(Tail(w))
CountsOK(w, N, c) == LET W == Sum(w) IN
    \A i \in 1..Len(w) : LET x == c[i] * W - N * w[i] IN
        IF w[i] = 0 THEN c[i] = 0
        ELSE IF w[i] = W THEN c[i] = N
        ELSE Abs(x) <= 40000 /\ x * x <= 36 * N * w[i] * (W - w[i])
AcceptedOK(d, c, P, k, N, cnt) ==
    LET den == ExpDen(c, P, k) IN
    IF d <= 0 THEN cnt = N
    ELSE IF MustReject(d, c, P, k) THEN cnt = 0
    ELSE LET e == Pow(2, ExpNum(d, P, k) \div den, 4096) x == cnt * e - N IN
         ExpNum(d, P, k) % den = 0 => (Abs(x) <= 40000 /\ x * x <= 36 * N * (e - 1))

-----------------------------------------------------------------------------
(* Steps.  Each returns the next state; the clauses say what is required.  *)
Settle(m, in) == \* the current solution an iteration starts from
    IF m.cand = NoSol THEN m.cur ELSE IF in.tag = m.cand.tag THEN m.cand ELSE m.cur

DestroyClauses(m, e, P) ==
    LET accepted == m.cand # NoSol /\ e.in.tag = m.cand.tag
        rejected == e.in.tag = m.cur.tag IN
    Clause("C04.alternate", m.phase = "idle")
    \cup Clause("C04.stop", m.n < P.max /\ ~m.best.cp)
    \cup Clause("C04.numbers", e.k = P.kr)
    \cup Clause("C04.current", accepted \/ rejected)
    \cup Clause("C04.copy", (accepted /\ e.in = m.cand) \/ (rejected /\ e.in = m.cur) \/ ~(accepted \/ rejected))
    \cup (IF m.cand = NoSol THEN {} ELSE
            Clause("C05.accept_no_worse", m.cand.val <= m.cur.val => accepted)
            \cup Clause("C05.accept_never",
                    ~(m.cand.val > m.cur.val /\ accepted /\ MustReject(m.cand.val - m.cur.val, m.cur.val, P, m.n - 1)))
            \cup Clause("C05.weights",
                    LET sc == Score(m, IF accepted THEN "yes" ELSE "no") IN
                    /\ WeightsOK(m.wd, e.wd, m.used[1], sc, P) /\ WeightsOK(m.wr, e.wr, m.used[2], sc, P)
                    /\ (P.l > 0 /\ m.wd # <<>> /\ m.wr # <<>> /\ e.wd # <<>> /\ e.wr # <<>>) =>
                         \E s \in sc : Abs(e.wd[m.used[1]] - NewWeight(m.wd[m.used[1]], s, P)) <= 3
                                    /\ Abs(e.wr[m.used[2]] - NewWeight(m.wr[m.used[2]], s, P)) <= 3))
    \cup Clause("C05.zero_weight", e.wd = <<>> \/ e.wd[e.i] > 0 \/ Sum(e.wd) = 0)
    \* every search, also a second one of the same solver, starts with equal weights
    \cup Clause("C05.start", m.n = 0 => \A w \in Range(e.wd) \cup Range(e.wr) : w = 1000000)
AfterDestroy(m, e) ==
    [m EXCEPT !.cur = Settle(m, e.in), !.cand = NoSol, !.phase = "destroyed", !.used = <<e.i, 0>>,
              !.wd = e.wd, !.wr = e.wr, !.newbest = FALSE]

RepairClauses(m, e, P) ==
    Clause("C04.alternate", m.phase = "destroyed" /\ e.in = m.cur.tag)
    \cup Clause("C04.numbers", e.k = P.ka)
    \cup Clause("C05.zero_weight", e.wr = <<>> \/ e.wr[e.j] > 0 \/ Sum(e.wr) = 0)
AfterRepair(m, e) ==
    [m EXCEPT !.cand = e.out, !.phase = "idle", !.n = m.n + 1, !.used = <<m.used[1], e.j>>,
              !.best = IF e.out.val < m.best.val THEN e.out ELSE m.best,
              !.newbest = e.out.val < m.best.val,
              !.seen = m.seen \cup {e.out}]

EndClauses(m, e, P) ==
    Clause("C04.alternate", m.phase = "idle")
    \cup Clause("C04.stop", m.n = P.max \/ m.best.cp)
    \cup Clause("C04.best", e.ret \in m.seen /\ e.ret.val = m.best.val)
    \cup Clause("C04.initial", e.init = P.init)
    \cup Clause("C05.weights", (m.cand = NoSol \/ m.best.cp) \/
            LET sc == Score(m, "unknown") IN
            WeightsOK(m.wd, e.wd, m.used[1], sc, P) /\ WeightsOK(m.wr, e.wr, m.used[2], sc, P))
=============================================================================
