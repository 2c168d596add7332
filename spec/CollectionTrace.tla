--------------------------- MODULE CollectionTrace --------------------------
(* Recorded histories of a WindowCollection against Collection.tla.          *)
EXTENDS Collection, Json, IOUtils
VARIABLES tid, l, s
Traces == JsonDeserialize(IOEnv.TRACES)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Empty
Next ==
    LET T == Traces[tid] IN
    /\ l <= Len(T.ev)
    /\ LET e == T.ev[l] bad == EventClauses(s, e) IN
       /\ IF bad # {} THEN PrintT("REJECT " \o ToString(<<tid, l, bad>>)) ELSE TRUE
       /\ IF l = Len(T.ev) THEN PrintT("DONE " \o ToString(tid)) ELSE TRUE
       /\ s' = After(s, e)
    /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, s>>
=============================================================================
