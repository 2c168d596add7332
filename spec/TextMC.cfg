SPECIFICATION Spec
CONSTANT COUNT = 300
INVARIANTS Readable Aligned Single Name Decodes Nearest
CHECK_DEADLOCK FALSE
