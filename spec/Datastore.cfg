SPECIFICATION Spec
INVARIANTS NoFuture Separate
PROPERTIES Stable
CHECK_DEADLOCK FALSE
