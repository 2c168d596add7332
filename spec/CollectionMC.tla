---------------------------- MODULE CollectionMC ----------------------------
(* The collection by itself: every history of adds and interleaved           *)
(* iterations; and all its histories up to some length, to be replayed.      *)
EXTENDS Collection, Json
CONSTANTS MAXLEN, MAXITS
VARIABLES s, yielded
ItStep(i, res) == [op |-> "next", it |-> i, res |-> res]
Init == s = Empty /\ yielded = <<>>
Add(k) == /\ Len(s.list) < MAXLEN
          /\ s' = After(s, [op |-> "add", kind |-> k, id |-> "w" \o ToString(Len(s.list) + 1)])
          /\ UNCHANGED yielded
Iter == /\ Len(s.its) < MAXITS /\ s' = After(s, [op |-> "iter"]) /\ yielded' = Append(yielded, <<>>)
Step == \E i \in 1..Len(s.its), r \in Range(Ids(s)) \cup {"stop"} :
          /\ NextOK(s, i, r) /\ s' = After(s, ItStep(i, r))
          /\ yielded' = IF r = "stop" THEN yielded ELSE [yielded EXCEPT ![i] = Append(@, r)]
Next == (\E k \in Kinds \cup {"text"} : Add(k)) \/ Iter \/ Step
Spec == Init /\ [][Next]_<<s, yielded>>
Homogeneous == \A i, j \in 1..Len(s.list) : s.list[i].kind = s.list[j].kind
\* what an iteration gave is a prefix of the list, all of the list's windows at
\* its start when it is over, whatever the other iterations did
Complete == \A i \in 1..Len(s.its) :
    /\ yielded[i] = SubSeq(Ids(s), 1, Len(yielded[i]))
    /\ s.its[i].over => Len(yielded[i]) >= s.its[i].start
RejectedUnchanged == [][\A k \in Kinds \cup {"text"} : Len(s'.list) \in {Len(s.list), Len(s.list) + 1}
                          /\ SubSeq(s'.list, 1, Len(s.list)) = s.list]_<<s, yielded>>
\* indexing and slicing agree: x[i] is the element of x[i:i+1] and all of x is x[:]
G(i) == [given |-> TRUE, i |-> i]
No == [given |-> FALSE, i |-> 0]
ASSUME \A n \in 0..5 : \A i \in -7..7 :
    /\ (i # -1 => Slice(n, G(i), G(i + 1), 1) = IF At(n, i) = 0 THEN <<>> ELSE <<At(n, i)>>)
    /\ \A j \in -7..7 : Slice(n, No, G(j), 1) \o Slice(n, G(j), No, 1) = [k \in 1..n |-> k]
    /\ Slice(n, No, No, -1) = [k \in 1..n |-> n + 1 - k]
=============================================================================
