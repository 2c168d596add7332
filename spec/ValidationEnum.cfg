SPECIFICATION GenSpec
CONSTANT DEEP = FALSE
INVARIANTS Symmetric Mirrored Convertible
CHECK_DEADLOCK FALSE
