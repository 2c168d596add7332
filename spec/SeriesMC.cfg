SPECIFICATION Spec
CONSTANT STEP = 9
INVARIANTS Elongated Latitudinal Perihelion Centred Ages Fine Rigid
CHECK_DEADLOCK FALSE
