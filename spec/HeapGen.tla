------------------------------- MODULE HeapGen ------------------------------
(* Random well-kinded histories of operations, repetitions and writes.      *)
EXTENDS Heap, Json
CONSTANTS STEPS
VARIABLES kinds, hist
Has(k, ks) == {i \in 1..Len(ks) : ks[i] = k}
Callable(ks) == {o \in Ops : \A a \in Range(o.a) : Has(a, ks) # {}}
Rnd(S) == RandomElement(S)
NameOf(S) == RandomElement({o.n : o \in S})
Init == kinds = Start /\ hist = <<>>
Calls == {i \in 1..Len(hist) : hist[i].op # "write"}
Fresh == {i \in 1..Len(kinds) : i > Len(Start) /\ Writable(kinds[i])}
Add(h) == hist' = Append(hist, h) /\ kinds' = Append(kinds, h.out)
Again(x) == \E i \in {Rnd(Calls)} : Add(hist[i])
Write(S) == \E i \in {Rnd(S)} : hist' = Append(hist, [op |-> "write", obj |-> i]) /\ UNCHANGED kinds
New(x) ==
    \E n \in {NameOf(Callable(kinds))} : \E o \in {Rnd({p \in Callable(kinds) : p.n = n})} :
    \E args \in {[j \in 1..Len(o.a) |-> Rnd(Has(o.a[j], kinds))]} :
        Add([op |-> n, args |-> args, out |-> o.o])
Next ==
    /\ Len(hist) < STEPS
    /\ \E c \in {Rnd(1..10)} :
         IF c <= 2 /\ Calls # {} THEN Again(c)
         ELSE IF c <= 4 /\ Fresh # {} THEN Write(Fresh)
         ELSE IF c = 5 THEN Write({i \in 1..Len(kinds) : Writable(kinds[i])})
         ELSE New(c)
    /\ IF Len(hist') = STEPS THEN PrintT("GEN " \o ToJson([start |-> Start, ev |-> hist'])) ELSE TRUE
GenSpec == Init /\ [][Next]_<<kinds, hist>>
=============================================================================
