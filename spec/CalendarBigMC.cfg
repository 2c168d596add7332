SPECIFICATION Spec
CONSTANTS STRIDE = 1
INVARIANTS ClosedForms Position
CHECK_DEADLOCK FALSE
