CONSTANTS
  Keys <- MCKeys
  KindsR <- MCKindsR
  NVal = 12
  NBuck = 1
  Depth = 120
  Exhaustive = FALSE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Refines Emit
CHECK_DEADLOCK FALSE
