----------------------------- MODULE Scheduling -----------------------------
(***************************************************************************)
(* The scheduling core of celest: a container of observation requests and  *)
(* the removal / insertion operators the neighbourhood search applies.     *)
(*                                                                         *)
(* Static data  S : sequence of requests, request r is                     *)
(*   [dl, dur, pri, q, look, wins]   times in integer ticks, pri quarters   *)
(*   look = NoLook or an angle (micro degrees)                             *)
(*   wins : sequence of [rise, set, ps], ps : sequence of <<t, pitch>>     *)
(*                                                                         *)
(* Dynamic state h :                                                       *)
(*   ord : order of the requests in the container (sequence of ids)        *)
(*   wl  : r -> sequence of window numbers (order of r's windows)          *)
(*   sc  : r -> <<w, st, du>>, w = 0 when r is not scheduled               *)
(*   cnt : the container's own counter of scheduled requests               *)
(*   dg  : r -> digest of the request's static data                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoLook == -2000000000

Reqs(S) == 1..Len(S)
Scheduled(h) == {r \in 1..Len(h.sc) : h.sc[r][1] # 0}
Win(x) == x[1]
Start(x) == x[2]
Dur(x) == x[3]
End(x) == x[2] + x[3]

Overlap(a, b) == Start(a) < End(b) /\ Start(b) < End(a)
Range(s) == {s[i] : i \in 1..Len(s)}
IsPerm(s, t) == /\ Len(s) = Len(t)
                /\ Range(s) = Range(t)
                /\ Cardinality(Range(s)) = Len(s)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Feasibility of a start time in a window.  "May" admits the closed       *)
(* constraints of the requirement, "Must" their interior: an exact tie     *)
(* (the observation ends exactly at the set time, ...) may go either way.  *)

QualityMay(w, st, q)  == 9 * Abs(2 * st - w.rise - w.set) <= (10 - q) * (w.set - w.rise)
QualityMust(w, st, q) == 9 * Abs(2 * st - w.rise - w.set) <  (10 - q) * (w.set - w.rise)

FitsMay(rq, w, st) ==
    /\ w.rise <= st /\ st + rq.dur <= w.set
    /\ st + rq.dur <= rq.dl
    /\ QualityMay(w, st, rq.q)
FitsMust(rq, w, st) ==
    /\ w.rise < st /\ st + rq.dur < w.set
    /\ st + rq.dur < rq.dl
    /\ QualityMust(w, st, rq.q)

(* Look angles: the samples after which the pitch reaches the angle.       *)
Crossings(w, a) ==
    {i \in 1..(Len(w.ps) - 1) : Sgn(w.ps[i][2] - a) * Sgn(w.ps[i + 1][2] - a) <= 0}
BracketsMay(w, a)  == Len(w.ps) > 1 /\ Sgn(w.ps[1][2] - a) * Sgn(w.ps[Len(w.ps)][2] - a) <= 0
BracketsMust(w, a) == Len(w.ps) > 1 /\ Sgn(w.ps[1][2] - a) * Sgn(w.ps[Len(w.ps)][2] - a) < 0

Candidates(rq, w) ==
    IF rq.look = NoLook THEN {(w.rise + w.set + rq.dur) \div 2}
    ELSE IF BracketsMay(w, rq.look)
         THEN {w.ps[i][1] : i \in Crossings(w, rq.look)} ELSE {}

ConflictFree(sc, r, st, du) ==
    \A p \in 1..Len(sc) : (p # r /\ sc[p][1] # 0) => ~Overlap(sc[p], <<1, st, du>>)

MayPlace(S, sc, r, w, st) ==
    LET rq == S[r] win == rq.wins[w] IN
    /\ st \in Candidates(rq, win)
    /\ FitsMay(rq, win, st)
    /\ ConflictFree(sc, r, st, rq.dur)

MustPlace(S, sc, r, w) ==
    LET rq == S[r] win == rq.wins[w] IN
    /\ rq.look # NoLook => BracketsMust(win, rq.look)
    /\ \A st \in Candidates(rq, win) :
          FitsMust(rq, win, st) /\ ConflictFree(sc, r, st, rq.dur)

-----------------------------------------------------------------------------
(* Conflict degree: mean overlap of a window with all windows overlapping  *)
(* it, as a fraction <<total, number>>.  Whether windows that only touch   *)
(* count as overlapping is left open (strict / lax).                       *)

AllWins(S) == UNION {{<<r, w>> : w \in 1..Len(S[r].wins)} : r \in Reqs(S)}
WinOf(S, rw) == S[rw[1]].wins[rw[2]]
OverlapLen(a, b) == Max2(0, Min2(a.set, b.set) - Max2(a.rise, b.rise))
RECURSIVE SumOver(_, _)
SumOver(f, D) == IF D = {} THEN 0
                 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumOver(f, D \ {x})
Degree(S, rw, lax) ==
    LET me == WinOf(S, rw)
        over == {x \in AllWins(S) : LET o == WinOf(S, x) IN
                    IF lax THEN ~(me.set < o.rise \/ o.set < me.rise)
                           ELSE me.set > o.rise /\ o.set > me.rise}
    IN <<SumOver([x \in over |-> OverlapLen(me, WinOf(S, x))], over), Cardinality(over)>>
\* fractions are compared coarsely enough to fit TLC's 32 bit integers
FracLE(a, b) == a[1] * b[2] <= b[1] * a[2]
DegreeLE(S, x, y) ==      \* not (deg x > deg y under both readings)
    \/ FracLE(Degree(S, x, TRUE), Degree(S, y, TRUE))
    \/ FracLE(Degree(S, x, FALSE), Degree(S, y, FALSE))

-----------------------------------------------------------------------------
(* Orders                                                                  *)
OrderedBy(s, LE(_, _)) == \A i \in 1..(Len(s) - 1) : LE(s[i], s[i + 1])
ByDecPriority(S, s) == OrderedBy(s, LAMBDA a, b : S[a].pri >= S[b].pri)
ByDecOpportunity(S, s) == OrderedBy(s, LAMBDA a, b : Len(S[a].wins) >= Len(S[b].wins))
ByIncOpportunity(S, s) == OrderedBy(s, LAMBDA a, b : Len(S[a].wins) <= Len(S[b].wins))
ByDecDegree(S, h) ==
    LET sched == SelectSeq(h.ord, LAMBDA r : h.sc[r][1] # 0) IN
    OrderedBy(sched, LAMBDA a, b : DegreeLE(S, <<b, h.sc[b][1]>>, <<a, h.sc[a][1]>>))
WinsByRise(S, h) == \A r \in Reqs(S) :
    OrderedBy(h.wl[r], LAMBDA a, b : S[r].wins[a].rise <= S[r].wins[b].rise)
WinsByDegree(S, h) == \A r \in Reqs(S) :
    OrderedBy(h.wl[r], LAMBDA a, b : DegreeLE(S, <<r, a>>, <<r, b>>))

-----------------------------------------------------------------------------
(* Sequential insertion: walk over the requests in the order of ord with   *)
(* the windows in the order of wl.  Returns the set of names of violated   *)
(* requirements for the claimed result post.                               *)
RECURSIVE WalkWins(_, _, _, _, _)
WalkWins(S, sc, r, ws, got) ==     \* ws: remaining windows of r; got: r's schedule in post
    IF ws = <<>> THEN IF got[1] = 0 THEN {} ELSE {"C08.candidate"}
    ELSE LET w == Head(ws) IN
         IF got[1] = w
         THEN IF MayPlace(S, sc, r, w, Start(got)) /\ Dur(got) = S[r].dur THEN {} ELSE {"C08.candidate"}
         ELSE IF MustPlace(S, sc, r, w)
              THEN IF got[1] = 0 THEN {"C08.maximal"} ELSE {"C08.first_window"}
              ELSE WalkWins(S, sc, r, Tail(ws), got)

RECURSIVE WalkReqs(_, _, _, _, _, _)
WalkReqs(S, sc, post, todo, k, wl) ==
    IF todo = <<>> THEN {}
    ELSE LET r == Head(todo) IN
         IF sc[r][1] # 0 THEN WalkReqs(S, sc, post, Tail(todo), k, wl)
         ELSE IF k = 0
              THEN (IF post.sc[r][1] # 0 THEN {"C08.limit"} ELSE {})
                   \cup WalkReqs(S, sc, post, Tail(todo), k, wl)
              ELSE WalkWins(S, sc, r, wl[r], post.sc[r])
                   \cup WalkReqs(S, [sc EXCEPT ![r] = post.sc[r]], post, Tail(todo),
                                 IF post.sc[r][1] # 0 THEN k - 1 ELSE k, wl)

(* A reference implementation of the walk, for the model checker.          *)
RECURSIVE PlaceWins(_, _, _, _), PlaceReqs(_, _, _, _, _)
PlaceWins(S, sc, r, ws) ==
    IF ws = <<>> THEN <<0, 0, 0>>
    ELSE LET w == Head(ws) IN
         IF Candidates(S[r], S[r].wins[w]) # {} /\ MustPlace(S, sc, r, w)
         THEN <<w, CHOOSE st \in Candidates(S[r], S[r].wins[w]) : TRUE, S[r].dur>>
         ELSE PlaceWins(S, sc, r, Tail(ws))
PlaceReqs(S, sc, todo, k, wl) ==
    IF todo = <<>> \/ k = 0 THEN sc
    ELSE LET r == Head(todo) IN
         IF sc[r][1] # 0 THEN PlaceReqs(S, sc, Tail(todo), k, wl)
         ELSE LET p == PlaceWins(S, sc, r, wl[r]) IN
              PlaceReqs(S, [sc EXCEPT ![r] = p], Tail(todo), IF p[1] # 0 THEN k - 1 ELSE k, wl)

-----------------------------------------------------------------------------
(* State requirements                                                      *)
Clause(name, ok) == IF ok THEN {} ELSE {name}

FeasibleClauses(S, h) == UNION {
    LET x == h.sc[r] rq == S[r] IN
    IF x[1] \notin 1..Len(rq.wins) THEN {"C01.own_window"}
    ELSE LET w == rq.wins[x[1]] IN
         Clause("C01.inside_window", w.rise <= Start(x) /\ End(x) <= w.set)
         \cup Clause("C01.duration", Dur(x) = rq.dur)
         \cup Clause("C01.deadline", End(x) <= rq.dl)
         \cup Clause("C01.quality", QualityMay(w, Start(x), rq.q))
         \cup Clause("C01.look_angle", rq.look = NoLook \/
                  (BracketsMay(w, rq.look) /\ \E i \in Crossings(w, rq.look) : w.ps[i][1] = Start(x)))
    : r \in Scheduled(h)}

OverlapClauses(h) ==
    Clause("C02.overlap", \A a, b \in Scheduled(h) : a # b => ~Overlap(h.sc[a], h.sc[b]))

ShapeClauses(S, h) ==
    Clause("C06.count", h.cnt = Cardinality(Scheduled(h)))
    \cup Clause("C06.permutation", IsPerm(h.ord, [i \in 1..Len(S) |-> i]))
    \cup Clause("C06.windows_kept", \A r \in Reqs(S) :
                    IsPerm(h.wl[r], [i \in 1..Len(S[r].wins) |-> i]))

-----------------------------------------------------------------------------
(* Step requirements: op, argument k, state before, state after.           *)
Kept(h, g, R) == \A r \in R : g.sc[r] = h.sc[r]
Data(h, g) == g.dg = h.dg
Placed(h, g) == Scheduled(g) \ Scheduled(h)
Removed(h, g) == Scheduled(h) \ Scheduled(g)

InsertionClauses(S, op, k, h, g) ==
    Clause("C08.keeps_scheduled", Kept(h, g, Scheduled(h)))
    \cup Clause("C08.keeps_data", Data(h, g))
    \cup Clause("C08.limit", Cardinality(Placed(h, g)) <= k)
    \cup (CASE op = "greedy"     -> Clause("C08.order", ByDecPriority(S, g.ord))
                                    \cup Clause("C08.window_order", g.wl = h.wl)
            [] op = "minopp"     -> Clause("C08.order", ByIncOpportunity(S, g.ord))
                                    \cup Clause("C08.window_order", g.wl = h.wl)
            [] op = "minconf"    -> Clause("C08.order", g.ord = h.ord)
                                    \cup Clause("C08.window_order", WinsByDegree(S, g))
            [] op = "initialize" -> Clause("C08.order", ByDecPriority(S, g.ord))
                                    \cup Clause("C08.window_order", WinsByRise(S, g)))
    \cup (IF \A r \in Reqs(S) : IsPerm(g.wl[r], h.wl[r])
          THEN WalkReqs(S, h.sc, g, g.ord, k, g.wl) ELSE {"C08.window_order"})

RemovalClauses(S, op, k, h, g) ==
    LET rem == Removed(h, g) IN
    Clause("C07.number", Cardinality(rem) = Min2(k, Cardinality(Scheduled(h))) /\ Placed(h, g) = {})
    \cup Clause("C07.keeps_others", Kept(h, g, Reqs(S) \ rem))
    \cup Clause("C07.keeps_data", Data(h, g) /\ g.wl = h.wl)
    \cup Clause("C07.choice",
         CASE op = "random"      -> TRUE
           [] op = "priority"    -> \A a \in rem, b \in Scheduled(g) : S[a].pri >= S[b].pri
           [] op = "opportunity" -> \A a \in rem, b \in Scheduled(g) : Len(S[a].wins) >= Len(S[b].wins)
           [] op = "conflict"    -> \A a \in rem, b \in Scheduled(g) :
                                       DegreeLE(S, <<b, h.sc[b][1]>>, <<a, h.sc[a][1]>>))

SortClauses(S, op, h, g) ==
    Clause("C06.sort_keeps", g.sc = h.sc /\ g.dg = h.dg /\ g.cnt = h.cnt)
    \cup Clause("C06.sort_order",
         CASE op = "sort_dec_priority"    -> ByDecPriority(S, g.ord) /\ g.wl = h.wl
           [] op = "sort_dec_opportunity" -> ByDecOpportunity(S, g.ord) /\ g.wl = h.wl
           [] op = "sort_inc_opportunity" -> ByIncOpportunity(S, g.ord) /\ g.wl = h.wl
           [] op = "sort_dec_conflict"    -> ByDecDegree(S, g) /\ g.wl = h.wl
           [] op = "sort_wins_conflict"   -> WinsByDegree(S, g) /\ g.ord = h.ord
           [] op = "sort_wins_rise"       -> WinsByRise(S, g) /\ g.ord = h.ord)

RECURSIVE SumPri(_, _)
SumPri(S, R) == IF R = {} THEN 0 ELSE LET r == CHOOSE r \in R : TRUE IN S[r].pri + SumPri(S, R \ {r})

Insertions == {"greedy", "minopp", "minconf", "initialize"}
Removals == {"random", "priority", "opportunity", "conflict"}
Sorts == {"sort_dec_priority", "sort_dec_opportunity", "sort_inc_opportunity",
          "sort_dec_conflict", "sort_wins_conflict", "sort_wins_rise"}

StepClauses(S, e, h, g) ==
    CASE e.op \in Insertions -> InsertionClauses(S, e.op, e.k, h, g)
      [] e.op \in Removals   -> RemovalClauses(S, e.op, e.k, h, g)
      [] e.op \in Sorts      -> SortClauses(S, e.op, h, g)
      [] e.op = "schedule"   -> \* request e.r on its window e.w at e.st for e.du
            Clause("C06.schedule", g = [h EXCEPT !.sc[e.r] = <<e.w, e.st, e.du>>,
                        !.cnt = IF h.sc[e.r][1] = 0 THEN h.cnt + 1 ELSE h.cnt])
      [] e.op = "unschedule" ->
            Clause("C06.unschedule", g = [h EXCEPT !.sc[e.r] = <<0, 0, 0>>,
                        !.cnt = IF h.sc[e.r][1] = 0 THEN h.cnt ELSE h.cnt - 1])
      [] e.op = "unschedule_all" ->
            Clause("C06.unschedule", g = [h EXCEPT !.sc = [r \in Reqs(S) |-> <<0, 0, 0>>], !.cnt = 0])
      [] e.op = "iterate" ->   \* e.seen: sequences of ids yielded by (nested, interrupted) iterations
            Clause("C06.iteration", \A i \in 1..Len(e.seen) : e.seen[i] = h.ord)
            \cup Clause("C06.iteration_pure", g = h)
      [] e.op = "evaluate" ->
            Clause("C09.cost", e.cost = -SumPri(S, Scheduled(h)))
            \cup Clause("C09.complete", e.complete = (Scheduled(h) = Reqs(S)))
            \cup Clause("C09.pure", g = h)
=============================================================================
