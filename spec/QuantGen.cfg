SPECIFICATION Spec
INVARIANTS Partition Straight
CHECK_DEADLOCK FALSE
