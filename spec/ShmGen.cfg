SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Memory Refer
PROPERTY OnlyDestroyed
