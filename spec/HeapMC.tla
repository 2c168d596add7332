------------------------------- MODULE HeapMC -------------------------------
(* Storage under the observable histories: objects own cells. With fresh    *)
(* results an object only changes when it is written; with SHARE a result   *)
(* may keep the cells of an argument, and StepClauses must then notice.     *)
EXTENDS Heap
CONSTANTS SHARE, MAXOBJ, MAXW
VARIABLES cells,   \* cell -> content
          objs,    \* object -> its cell
          obs, memo, last
vars == <<cells, objs, obs, memo, last>>
Look(c, o) == [i \in 1..Len(o) |-> c[o[i]]]
F(x) == (3 * x + 1) % 101
Init == /\ cells = <<1, 2>> /\ objs = <<1, 2>> /\ obs = <<1, 2>> /\ memo = [x \in {} |-> 0]
        /\ last = {}
\* "dup" copies its argument, "f" computes a new value
Call(op, i) ==
    /\ Len(objs) < MAXOBJ
    /\ \E share \in IF SHARE /\ op = "dup" THEN BOOLEAN ELSE {FALSE} :
       LET v == IF op = "dup" THEN cells[objs[i]] ELSE F(cells[objs[i]])
           c == IF share THEN cells ELSE Append(cells, v)
           o == Append(objs, IF share THEN objs[i] ELSE Len(c))
           e == [op |-> op, args |-> <<i>>, err |-> "", result |-> v, digests |-> Look(c, o)] IN
       /\ cells' = c /\ objs' = o /\ obs' = Look(c, o)
       /\ last' = StepClauses(<<>>, obs, memo, e) /\ memo' = MemoAfter(obs, memo, e)
Write(i) ==
    /\ cells[objs[i]] < MAXW
    /\ cells' = [cells EXCEPT ![objs[i]] = @ + 10] /\ UNCHANGED <<objs, memo>>
    /\ obs' = Look(cells', objs)
    /\ last' = StepClauses(<<>>, obs, memo, [op |-> "write", obj |-> i, digests |-> Look(cells', objs)])
Next == \E i \in 1..Len(objs) : Call("dup", i) \/ Call("f", i) \/ Write(i)
Spec == Init /\ [][Next]_vars
Owned == Cardinality(Range(objs)) = Len(objs)
NeverRejected == last = {}
\* a shared cell is noticed as soon as it is written through one of its owners
Noticed == [][\A i \in 1..Len(objs) :
    (cells'[objs[i]] # cells[objs[i]] /\ \E j \in 1..Len(objs) : j # i /\ objs[j] = objs[i])
        => "C15.no_alias" \in last']_vars
=============================================================================
