SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Restored ByRule
