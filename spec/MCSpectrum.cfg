SPECIFICATION Spec
INVARIANTS Continuous Shape Standard Known Circle
CHECK_DEADLOCK FALSE
