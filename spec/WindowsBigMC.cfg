SPECIFICATION Spec
CONSTANTS MAXN = 8
 PRINTN = 7
INVARIANTS Exact Cover Split
CHECK_DEADLOCK FALSE
