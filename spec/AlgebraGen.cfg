SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Assoc AssocArrays WellFormed Replays
PROPERTY Unchanged
