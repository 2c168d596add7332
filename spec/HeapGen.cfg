SPECIFICATION GenSpec
CONSTANTS None = None
 STEPS = 24
CHECK_DEADLOCK FALSE
