SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Refines Sorted Inverses AsGiven
