SPECIFICATION Spec
CONSTANTS MAXLEN = 4
 MAXITS = 3
INVARIANTS Homogeneous Complete
PROPERTY RejectedUnchanged
CHECK_DEADLOCK FALSE
