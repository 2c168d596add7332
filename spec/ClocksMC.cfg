SPECIFICATION Spec
CONSTANT STEP = 5
INVARIANTS Bounded Noon Additive Continuous Consistent Rigid
CHECK_DEADLOCK FALSE
