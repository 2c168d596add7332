SPECIFICATION Spec
CONSTANTS None = None
 SHARE = FALSE
 MAXOBJ = 4
 MAXW = 40
INVARIANTS Owned NeverRejected
CHECK_DEADLOCK FALSE
