SPECIFICATION SpecI
INVARIANTS Accepted Sound ConservedJ CausalJ Slots
CONSTANT
  Runs <- NoRuns
  P <- Subject
CHECK_DEADLOCK FALSE
