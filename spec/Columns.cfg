SPECIFICATION Spec
INVARIANTS Same Present Needed
CHECK_DEADLOCK FALSE
