SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Layouts OwnNoise Stable
