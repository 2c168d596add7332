----------------------------- MODULE ClocksTrace ---------------------------
(* Clock readings against Clocks.tla.              *)
EXTENDS Clocks, Json, IOUtils
VARIABLES tid, l
Traces == JsonDeserialize(IOEnv.TRACES)
Init == tid \in 1..Len(Traces) /\ l = 1
Next ==
    LET T == Traces[tid] IN
    /\ l <= Len(T.ev)
    /\ LET e == T.ev[l] bad == EventClauses(e) IN
       /\ IF bad # {} THEN PrintT("REJECT " \o ToString(<<tid, l, bad>>)) ELSE TRUE
       /\ IF l = Len(T.ev) THEN PrintT("DONE " \o ToString(tid)) ELSE TRUE
    /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
