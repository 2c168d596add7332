----------------------------- MODULE Collection -----------------------------
(* A window collection (C11): a homogeneous list and the iterations over it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in 1..Len(s)}
Clause(name, ok) == IF ok THEN {} ELSE {name}
Kinds == {"vtw", "obs"}
Junk == {"none", "number", "text", "pair", "list", "class", "dict", "collection"}
\* the state: list of windows [id, kind], iterations it -> [pos, start, over]
Empty == [list |-> <<>>, its |-> <<>>]
Addable(s, k) == k \in Kinds /\ (s.list = <<>> \/ s.list[1].kind = k)
Ids(s) == [i \in 1..Len(s.list) |-> s.list[i].id]

\* Python indexing of a list of n elements; 0 if out of range
At(n, i) == LET j == IF i < 0 THEN i + n + 1 ELSE i + 1 IN IF j \in 1..n THEN j ELSE 0
\* the indices a Python slice lo:hi:st selects ("-" for an omitted bound)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Bound(x, dflt, n, lo, hi) == IF ~x.given THEN dflt ELSE Clip(IF x.i < 0 THEN x.i + n ELSE x.i, lo, hi)
RECURSIVE Walk(_, _, _)
Walk(i, hi, st) == IF (st > 0 /\ i >= hi) \/ (st < 0 /\ i <= hi) THEN <<>> ELSE <<i + 1>> \o Walk(i + st, hi, st)
Slice(n, lo, hi, st) ==
    IF st > 0 THEN Walk(Bound(lo, 0, n, 0, n), Bound(hi, n, n, 0, n), st)
    ELSE Walk(Bound(lo, n - 1, n, -1, n - 1), Bound(hi, -1, n, -1, n - 1), st)

\* ---- transitions
After(s, e) ==
    CASE e.op = "add" /\ Addable(s, e.kind) -> [s EXCEPT !.list = Append(@, [id |-> e.id, kind |-> e.kind])]
      [] e.op = "many" -> [s EXCEPT !.list = @ \o [j \in 1..Len(e.ids) |-> [id |-> e.ids[j], kind |-> e.kind]]]
      [] e.op = "again" /\ e.i <= Len(s.list) -> [s EXCEPT !.list = Append(@, s.list[e.i])]
      [] e.op = "iter" -> [s EXCEPT !.its = Append(@, [pos |-> 0, start |-> Len(s.list), over |-> FALSE])]
      [] e.op = "next" -> [s EXCEPT !.its[e.it] =
                              IF e.res = "stop" THEN [@ EXCEPT !.over = TRUE] ELSE [@ EXCEPT !.pos = @ + 1]]
      [] OTHER -> s
\* what an iteration may give next: windows added meanwhile may be seen or not
NextOK(s, it, res) ==
    LET x == s.its[it] IN
    IF x.over THEN res = "stop"
    ELSE IF x.pos < x.start THEN res = s.list[x.pos + 1].id
    ELSE res = "stop" \/ (x.pos < Len(s.list) /\ res = s.list[x.pos + 1].id)

EventClauses(s, e) ==
    CASE e.op = "crash" -> {"C11.crash"}
      [] e.op = "add" -> Clause("C11.add", e.res = IF Addable(s, e.kind) THEN "ok" ELSE "TypeError")
      [] e.op = "many" -> Clause("C11.add", Range(e.res) = {"ok"})   \* many windows of the collection's kind
      [] e.op = "again" -> Clause("C11.add", e.res = "ok")
      [] e.op = "len" -> Clause("C11.length", e.res = Len(s.list))
      [] e.op = "bool" -> Clause("C11.length", e.res = (Len(s.list) > 0))
      [] e.op = "list" -> Clause("C11.iteration", e.res = Ids(s))
      [] e.op = "pairs" -> \* a loop inside a loop over the same collection
            Clause("C11.independent", e.res = [i \in 1..Len(s.list) * Len(s.list) |->
                <<s.list[((i - 1) \div Len(s.list)) + 1].id, s.list[((i - 1) % Len(s.list)) + 1].id>>])
      [] e.op = "break" -> \* a loop left after e.n windows
            Clause("C11.iteration", e.res = SubSeq(Ids(s), 1, IF e.n < Len(s.list) THEN e.n ELSE Len(s.list)))
      [] e.op = "reversed" -> Clause("C11.index", e.res = [i \in 1..Len(s.list) |-> s.list[Len(s.list) + 1 - i].id])
      [] e.op = "in" -> Clause("C11.iteration", e.res = (e.id \in Range(Ids(s))))
      [] e.op = "index" -> LET j == At(Len(s.list), e.i) IN
            Clause("C11.index", e.res = IF j = 0 THEN "IndexError" ELSE s.list[j].id)
      [] e.op = "slice" -> LET w == Slice(Len(s.list), e.lo, e.hi, e.st) IN
            Clause("C11.slice", e.res = [i \in 1..Len(w) |-> s.list[w[i]].id])
      [] e.op = "iter" -> {}
      [] e.op = "next" -> Clause("C11.independent", NextOK(s, e.it, e.res))
=============================================================================
