SPECIFICATION Spec
CONSTANT BOUND = 8
INVARIANTS Back Exact Order
CHECK_DEADLOCK FALSE
