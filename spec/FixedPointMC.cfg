SPECIFICATION Spec
CONSTANT STEP = 32
INVARIANTS Trig Arith Rotation
CHECK_DEADLOCK FALSE
