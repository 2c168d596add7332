------------------------------ MODULE HeapTrace -----------------------------
(* Recorded histories of library objects against Heap.tla.                  *)
EXTENDS Heap, Json, IOUtils
VARIABLES tid, l, digests, memo
Traces == JsonDeserialize(IOEnv.TRACES)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ digests = Traces[tid].start /\ memo = [x \in {} |-> 0]
Next ==
    LET T == Traces[tid] IN
    /\ l <= Len(T.ev)
    /\ LET e == T.ev[l] bad == StepClauses(<<>>, digests, memo, e) IN
       /\ IF bad # {} THEN PrintT("REJECT " \o ToString(<<tid, l, bad>>)) ELSE TRUE
       /\ IF l = Len(T.ev) THEN PrintT("DONE " \o ToString(tid)) ELSE TRUE
       /\ memo' = MemoAfter(digests, memo, e) /\ digests' = e.digests
    /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, digests, memo>>
=============================================================================
