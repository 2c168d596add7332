------------------------------ MODULE AlnsTrace ------------------------------
(* Recorded searches, step by step against the search of Alns.tla.          *)
EXTENDS Alns, Json, IOUtils
VARIABLES tid, l, m
Traces == JsonDeserialize(IOEnv.TRACES)

Extra == [wd |-> <<>>, wr |-> <<>>, newbest |-> FALSE]
EventClauses(T, e) ==
    CASE e.op = "crash" -> {p \o ".crash" : p \in Range(e.props)}
      [] e.op = "start" -> {}
      [] e.op = "destroy" -> DestroyClauses(m, e, T.P)
      [] e.op = "repair" -> RepairClauses(m, e, T.P)
      [] e.op = "end" -> EndClauses(m, e, T.P)
      [] e.op = "freq" -> Clause("C05.probability", AcceptedOK(e.d, e.cur, [p |-> e.p, c0 |-> e.c0], e.k, e.N, e.cnt))
      [] e.op = "select" -> Clause("C05.selection", CountsOK(e.w, e.N, e.cnt))

After(T, e) ==
    CASE e.op = "start" -> Begin(T.P.init) @@ Extra
      [] e.op = "destroy" -> AfterDestroy(m, e)
      [] e.op = "repair" -> AfterRepair(m, e)
      [] OTHER -> m

Init == tid \in 1..Len(Traces) /\ l = 1 /\ m = Begin(NoSol) @@ Extra
Next ==
    LET T == Traces[tid] IN
    /\ l <= Len(T.ev)
    /\ LET e == T.ev[l] bad == EventClauses(T, e) IN
       /\ IF bad # {} THEN PrintT("REJECT " \o ToString(<<tid, l, bad>>)) ELSE TRUE
       /\ IF l = Len(T.ev) THEN PrintT("DONE " \o ToString(tid)) ELSE TRUE
       /\ m' = After(T, e)
    /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, m>>
=============================================================================
