-------------------------------- MODULE Display ------------------------------
(* C29: what units, quantities, locations and windows print.                  *)
(* A printed unit is a list of words: [k |-> "number", ln (its logarithm in    *)
(* 2^-20)], [k |-> "one"] (the text 1), [k |-> "slash"], [k |-> "power", n, e] *)
(* (a name, and its power in quarters, 4 when none is written), anything else  *)
(* [k |-> "other"].                                                           *)
EXTENDS Units

\* ---- reading: [ok, num, ln, up, down]; up and down are sequences of powers
RECURSIVE Powers(_)
Powers(w) == IF w = <<>> \/ Head(w).k # "power" THEN <<>> ELSE <<Head(w)>> \o Powers(Tail(w))
Rest(w, n) == SubSeq(w, n + 1, Len(w))
Read(w) ==
    LET num == w # <<>> /\ w[1].k = "number"
        v == IF num THEN Tail(w) ELSE w
        one == v # <<>> /\ v[1].k = "one"
        up == IF one THEN <<>> ELSE Powers(v)
        x == IF one THEN Tail(v) ELSE Rest(v, Len(up))
        slash == x # <<>> /\ x[1].k = "slash"
        down == IF slash THEN Powers(Tail(x)) ELSE <<>> IN
    [ok |-> /\ (one \/ up # <<>>) /\ (slash => down # <<>>)
            /\ Len(x) = (IF slash THEN 1 + Len(down) ELSE 0),
     num |-> num, ln |-> IF num THEN w[1].ln ELSE 0, up |-> up, down |-> down]
\* every name once, with a positive power
Distinct(r) == LET all == r.up \o r.down IN
    /\ \A i, j \in 1..Len(all) : all[i].n = all[j].n => i = j
    /\ \A i \in 1..Len(all) : all[i].e > 0
\* the power of a name
Of(r, n) == SumSeq([i \in 1..Len(r.up) |-> IF r.up[i].n = n THEN r.up[i].e ELSE 0])
            - SumSeq([i \in 1..Len(r.down) |-> IF r.down[i].n = n THEN r.down[i].e ELSE 0])
\* ---- writing, for the specification by itself: exponents (quarters) of names in some order
Write(names, e, num, ln) ==
    LET word(n, p) == [k |-> "power", n |-> n, e |-> Abs(p)]
        up == SelectSeq(names, LAMBDA n : e[n] > 0) down == SelectSeq(names, LAMBDA n : e[n] < 0) IN
    (IF num THEN <<[k |-> "number", ln |-> ln]>> ELSE <<>>)
    \o (IF up = <<>> THEN <<[k |-> "one"]>> ELSE [i \in 1..Len(up) |-> word(up[i], e[up[i]])])
    \o (IF down = <<>> THEN <<>> ELSE <<[k |-> "slash"]>> \o [i \in 1..Len(down) |-> word(down[i], e[down[i]])])

Letters == <<"L", "T", "A", "D">>
UnitClauses(e) ==
    LET v == Eval(e.a) r == Read(e.words) d == Read(e.dim) IN
    Clause("C29.unit", /\ r.ok /\ Distinct(r)
                       /\ \A i \in 1..Len(Names) : Of(r, Names[i]) = v.u[i]
                       /\ \A p \in Range(r.up \o r.down) : p.n \in Range(Names))
    \cup Clause("C29.scale", r.ok => (Abs(r.ln - v.ln) <= 12 /\ e.exact))
    \cup Clause("C29.dimension", /\ d.ok /\ Distinct(d) /\ ~d.num
                                 /\ \A i \in 1..4 : Of(d, Letters[i]) = Dims(v)[i]
                                 /\ \A p \in Range(d.up \o d.down) : p.n \in Range(Letters))
    \cup Clause("C29.repr", e.repr = e.class \o "(\"" \o e.s \o "\")")

RECURSIVE Joined(_, _)
Joined(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Joined(Tail(q), sep)
Call(name, args) == name \o "(" \o Joined(args, ", ") \o ")"
Fields(names, values) == Joined([i \in 1..Len(names) |-> names[i] \o ": " \o values[i]], ", ")
VisibleNames == <<"Rise time", "Set time", "Attitude">>
ObservationNames == <<"Start time", "Duration", "Location", "Attitude">>
EventClauses(e) ==
    CASE e.op = "crash" -> {"C29.crash"}
      [] e.op = "unit" -> UnitClauses(e)
      [] e.op = "quantity" -> Clause("C29.quantity", e.s = e.data \o " " \o e.unit /\ e.repr = Call("Quantity", <<e.rdata, e.runit>>))
      [] e.op = "location" -> Clause("C29.location", e.repr = Call("GroundLocation", e.args))
      [] e.op = "visible" -> Clause("C29.window", e.s = Fields(VisibleNames, e.parts) /\ e.repr = Call("VisibleTimeWindow", e.args))
      [] e.op = "observation" -> Clause("C29.window", e.s = Fields(ObservationNames, e.parts) /\ e.repr = Call("ObservationWindow", e.parts))
      [] OTHER -> Clause("C29.collection", e.repr = Call("WindowCollection", e.parts) /\ e.s = "[" \o Joined(e.parts, ", ") \o "]")
=============================================================================
