SPECIFICATION Spec
CONSTANT STEPS = 5
CHECK_DEADLOCK FALSE
