SPECIFICATION Spec
CONSTANT STEP = 1
INVARIANTS Elongated Latitudinal Perihelion Centred Ages Fine Rigid
CHECK_DEADLOCK FALSE
