SPECIFICATION Spec
INVARIANTS Complete ParentsFirst
CHECK_DEADLOCK FALSE
