------------------------------ MODULE SchedTrace ------------------------------
(***************************************************************************)
(* Trace specification: each recorded history of the implementation is     *)
(* replayed against the step and state requirements of Scheduling.tla.     *)
(* ev[i] = [op, ..., post]; the state before event i is ev[i - 1].post.    *)
(***************************************************************************)
EXTENDS Scheduling, Json, IOUtils

VARIABLES tid, l
Traces == JsonDeserialize(IOEnv.TRACES)

\* events of Scheduler runs
AddClauses(e) == \* a request as the scheduler holds it vs. the caller's arguments
    Clause("C03.request", e.got = e.want)
WindowsClauses(S, e, h) ==
    \* e.out: sequence of [r, st, du, att]; e.near[i]: attitudes allowed for out[i]
    LET want == {<<r, h.sc[r][2], h.sc[r][3]>> : r \in Scheduled(h)}
        got == [i \in 1..Len(e.out) |-> <<e.out[i].r, e.out[i].st, e.out[i].du>>] IN
    Clause("C03.windows", Range(got) = want /\ Cardinality(want) = Len(got))
    \cup Clause("C03.attitude", \A i \in 1..Len(e.out) : \E a \in Range(e.near[i]) :
             \A c \in 1..3 : Abs(e.out[i].att[c] - a[c]) <= 2)
    \cup Clause("C03.location", \A i \in 1..Len(e.out) : e.out[i].aloc = e.out[i].r)
    \* the schedule itself, judged without reference to the recorded solution
    \cup Clause("C02.returned", \A i, j \in 1..Len(e.out) : i # j =>
             ~Overlap(<<1, e.out[i].st, e.out[i].du>>, <<1, e.out[j].st, e.out[j].du>>))
    \cup Clause("C01.returned", \A i \in 1..Len(e.out) : LET o == e.out[i] rq == S[o.r] IN
             /\ o.du = rq.dur
             /\ \E w \in 1..Len(rq.wins) :
                   /\ rq.wins[w].rise <= o.st /\ o.st + o.du <= rq.wins[w].set
                   /\ o.st + o.du <= rq.dl
                   /\ QualityMay(rq.wins[w], o.st, rq.q)
                   /\ rq.look = NoLook \/ (BracketsMay(rq.wins[w], rq.look) /\
                        \E c \in Crossings(rq.wins[w], rq.look) : rq.wins[w].ps[c][1] = o.st))

\* A recorded state the rest can be judged on: every window number denotes a
\* window of its request, every request is there once.
Sane(S, h) ==
    /\ Len(h.ord) = Len(S) /\ Range(h.ord) = Reqs(S)
    /\ \A r \in Reqs(S) : h.sc[r][1] \in 0..Len(S[r].wins)
    /\ \A r \in Reqs(S) : \A i \in 1..Len(h.wl[r]) : h.wl[r][i] \in 1..Len(S[r].wins)
\* -2: not scheduled but with left over details; -1: no window of the request
SaneClauses(S, h) ==
    IF Sane(S, h) THEN {}
    ELSE Clause("C06.unscheduled_details", \A r \in Reqs(S) : h.sc[r][1] # -2)
         \cup Clause("C06.attached_window", \A r \in Reqs(S) : h.sc[r][1] # -1)
         \cup Clause("C01.own_window", \A r \in Reqs(S) : h.sc[r][1] # -1)
         \cup Clause("C06.requests_kept", Len(h.ord) = Len(S) /\ Range(h.ord) = Reqs(S))
         \cup Clause("C06.windows_kept", \A r \in Reqs(S) : \A i \in 1..Len(h.wl[r]) : h.wl[r][i] >= 1)

EventClauses(T, e, h) ==
    CASE e.op = "crash" -> {p \o ".crash" : p \in Range(e.props)}
      [] e.op # "add" /\ ~Sane(T.S, e.post) -> SaneClauses(T.S, e.post)
      [] e.op \notin {"add", "init", "copy"} /\ ~Sane(T.S, h) -> {}
      [] e.op = "add" -> AddClauses(e)
      [] e.op = "reach" -> \* requests unscheduled by random removal over many runs
            Clause("C07.random_reaches_all", Range(e.hit) = Scheduled(h))
      [] e.op = "windows" -> WindowsClauses(T.S, e, h)
      [] OTHER -> \* "init": first state; "copy": the search takes up another solution
                  (IF e.op \in {"init", "copy"} THEN {} ELSE StepClauses(T.S, e, h, e.post))
                  \cup ShapeClauses(T.S, e.post)
                  \cup (IF T.free THEN {} ELSE FeasibleClauses(T.S, e.post) \cup OverlapClauses(e.post))

Init == tid \in 1..Len(Traces) /\ l = 1
Next ==
    LET T == Traces[tid] IN
    /\ l <= Len(T.ev)
    /\ LET e == T.ev[l]
           h == IF l = 1 THEN e.post ELSE T.ev[l - 1].post
           bad == EventClauses(T, e, h) IN
       /\ IF bad # {} THEN PrintT("REJECT " \o ToString(<<tid, l, bad>>)) ELSE TRUE
       /\ IF l = Len(T.ev) THEN PrintT("DONE " \o ToString(tid)) ELSE TRUE
    /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
