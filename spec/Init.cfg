SPECIFICATION Spec
INVARIANTS OnceEach RefusedIffOffends
CHECK_DEADLOCK FALSE
