SPECIFICATION Spec
CONSTANT STEPS = 32
INVARIANTS Ellipsoid Normal Radius Oblate Triad Frame Attitude Rotation Westward
CHECK_DEADLOCK FALSE
