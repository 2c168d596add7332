SPECIFICATION Spec
CONSTANT COUNT = 20000
INVARIANTS Readable Aligned Single Name Decodes Nearest
CHECK_DEADLOCK FALSE
