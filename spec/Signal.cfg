SPECIFICATION Spec
INVARIANTS Exact OneHolder NoLost
PROPERTIES Forward Free
CHECK_DEADLOCK FALSE
