SPECIFICATION SpecI
INVARIANTS Accepted Sound ConservedJ CausalJ Slots
CONSTANT
  Runs <- NoRuns
  P <- Subject
  SlotTaken <- Yes
  Unheard <- No
  ViewOk <- AnyView
CHECK_DEADLOCK FALSE
