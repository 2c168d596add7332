SPECIFICATION Spec
CONSTANTS None = None
CHECK_DEADLOCK FALSE
