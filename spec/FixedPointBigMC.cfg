SPECIFICATION Spec
CONSTANT STEP = 4
INVARIANTS Trig Arith Rotation
CHECK_DEADLOCK FALSE
