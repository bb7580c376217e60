SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnlyListed Apart NoDeadlock
