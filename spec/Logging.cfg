SPECIFICATION Spec
INVARIANTS ExactlyEnabled TicksMonotone
CHECK_DEADLOCK FALSE
