SPECIFICATION Spec
CONSTANTS STRIDE = 40
INVARIANTS ClosedForms Position
CHECK_DEADLOCK FALSE
