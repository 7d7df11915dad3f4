SPECIFICATION Spec
INVARIANTS Balanced Free Energy Turned Enlarged
CHECK_DEADLOCK FALSE
