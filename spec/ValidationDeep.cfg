SPECIFICATION GenSpec
CONSTANT DEEP = TRUE
INVARIANTS Symmetric Mirrored Convertible
CHECK_DEADLOCK FALSE
