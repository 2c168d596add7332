SPECIFICATION GenSpec
CONSTANT STEPS = 20
CHECK_DEADLOCK FALSE
