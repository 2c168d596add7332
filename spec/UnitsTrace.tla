------------------------------ MODULE UnitsTrace ------------------------------
(* Recorded unit and quantity operations against Units.tla.                  *)
EXTENDS Units, Json, IOUtils
VARIABLES tid, l
Traces == JsonDeserialize(IOEnv.TRACES)
EventClauses(e) ==
    CASE e.op = "crash" -> {p \o ".crash" : p \in Range(e.props)}
      [] e.op = "convert" -> ConvertClauses(e)
      [] e.op = "predefined" -> PredefinedClauses(e)
      [] e.op = "group" -> GroupClauses(e)
      [] e.op = "arith" -> ArithClauses(e)
      [] e.op = "compare" -> CompareClauses(e)
      [] e.op = "mixed" -> \* sums of different dimensions
            Clause("C14.dimension_error", \A r \in Range(e.errs) : r = "ArithmeticError")
      [] e.op = "alien" -> \* a quantity and something else
            Clause("C14.other_equal", \A r \in Range(e.eq) : r = "False")
            \cup Clause("C14.other_error", \A r \in Range(e.errs) : r = "TypeError")
      [] e.op = "pure" -> \* an operation of the library, performed twice
            Clause("C15.inputs", e.before = e.after)
            \cup Clause("C15.repeatable", e.first = e.second)
            \cup Clause("C15.no_alias", e.before = e.aftermutation)
Init == tid \in 1..Len(Traces) /\ l = 1
Next ==
    LET T == Traces[tid] IN
    /\ l <= Len(T.ev)
    /\ LET e == T.ev[l] bad == EventClauses(e) IN
       /\ IF bad # {} THEN PrintT("REJECT " \o ToString(<<tid, l, bad>>)) ELSE TRUE
       /\ IF l = Len(T.ev) THEN PrintT("DONE " \o ToString(tid)) ELSE TRUE
    /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
