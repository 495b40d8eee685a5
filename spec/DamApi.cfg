SPECIFICATION Spec
INVARIANTS Conserved Causal
CHECK_DEADLOCK FALSE
