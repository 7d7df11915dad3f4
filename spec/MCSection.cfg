SPECIFICATION Spec
INVARIANTS Area Second Turned Saint
CHECK_DEADLOCK FALSE
