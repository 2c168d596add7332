SPECIFICATION Spec
CONSTANT STEP = 1
INVARIANTS Bounded Noon Additive Continuous Consistent Rigid
CHECK_DEADLOCK FALSE
