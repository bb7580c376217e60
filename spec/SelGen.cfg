SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Partition NonEmpty Swap
