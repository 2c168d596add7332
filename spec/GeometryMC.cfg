SPECIFICATION Spec
CONSTANT STEPS = 8
INVARIANTS Ellipsoid Normal Radius Oblate Triad Frame Attitude Rotation Westward
CHECK_DEADLOCK FALSE
