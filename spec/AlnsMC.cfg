SPECIFICATION Spec
INVARIANT BestIsMin Bounded NoWaste WeightsInRange CurrentSeen
PROPERTY Frozen Ends
CHECK_DEADLOCK FALSE
