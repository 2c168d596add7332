SPECIFICATION Spec
CONSTANTS MAXLEN = 5
 MAXITS = 4
INVARIANTS Homogeneous Complete
PROPERTY RejectedUnchanged
CHECK_DEADLOCK FALSE
