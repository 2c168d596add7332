------------------------------- MODULE Windows ------------------------------
(* Visible time windows of an encounter (C10). Samples 1..n of an ephemeris; *)
(* up[i]: the elevation exceeds the threshold, sun[i]: the Sun is up.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in 1..Len(s)}
Clause(name, ok) == IF ok THEN {} ELSE {name}
Modes == {"any", "day", "night"}
Lit(mode, light) == mode = "any" \/ (mode = "day") = light
Seen(up, sun, mode) == [i \in 1..Len(up) |-> up[i] /\ Lit(mode, sun[i])]

\* ---- the requirement: windows are the maximal runs of seen samples
Run(seen, a, b) ==
    /\ a <= b /\ \A i \in a..b : seen[i]
    /\ a = 1 \/ ~seen[a - 1]
    /\ b = Len(seen) \/ ~seen[b + 1]
Runs(seen) == {r \in (1..Len(seen)) \X (1..Len(seen)) : Run(seen, r[1], r[2])}
WindowOf(r) == <<IF r[1] = 1 THEN 1 ELSE r[1] - 1, r[2]>>
RECURSIVE Ordered(_)
Ordered(R) == IF R = {} THEN <<>>
    ELSE LET f == CHOOSE r \in R : \A q \in R : r[1] <= q[1] IN <<WindowOf(f)>> \o Ordered(R \ {f})
Want(up, sun, mode) == Ordered(Runs(Seen(up, sun, mode)))

\* the same, for long ephemerides: the k-th window goes from the k-th beginning to the k-th end
Fast(up, sun, mode) ==
    LET seen == Seen(up, sun, mode) n == Len(seen)
        first == SelectSeq([i \in 1..n |-> i], LAMBDA i : seen[i] /\ (i = 1 \/ ~seen[i - 1]))
        last == SelectSeq([i \in 1..n |-> i], LAMBDA i : seen[i] /\ (i = n \/ ~seen[i + 1])) IN
    [k \in 1..Len(first) |-> WindowOf(<<first[k], last[k]>>)]

\* ---- a tracking station: it watches sample after sample and keeps a log
Start == [open |-> 0, log |-> <<>>]
Watch(st, i, seen, n) ==
    LET opened == IF seen /\ st.open = 0 THEN IF i = 1 THEN 1 ELSE i ELSE st.open
        rise(k) == IF k = 1 THEN 1 ELSE k - 1 IN
    IF seen THEN IF i = n THEN [open |-> 0, log |-> Append(st.log, <<rise(opened), i>>)]
                 ELSE [st EXCEPT !.open = opened]
    ELSE IF st.open # 0 THEN [open |-> 0, log |-> Append(st.log, <<rise(st.open), i - 1>>)]
    ELSE st

EventClauses(e) ==
    IF e.op = "crash" THEN {"C10.crash"}
    ELSE LET want == Fast(e.up, e.sun, e.mode) got == e.windows IN
         Clause("C10.none_missed", \A w \in Range(want) : w[2] \in {x[2] : x \in Range(got)} \/ w[1] \in {x[1] : x \in Range(got)})
         \cup Clause("C10.none_invented", Len(got) <= Len(want))
         \cup Clause("C10.rise_set", got = want)
         \cup Clause("C10.attitude", \A a \in Range(e.att) : a)
=============================================================================
