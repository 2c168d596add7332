SPECIFICATION Spec
CONSTANTS MAXN = 6
 PRINTN = 5
INVARIANTS Exact Cover Split
CHECK_DEADLOCK FALSE
