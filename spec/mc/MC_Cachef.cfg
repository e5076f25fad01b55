CONSTANTS
  Keys <- MCKeys
  KindsR <- MCKindsR
  NVal = 2
  NBuck = 2
  Depth = 1
  Exhaustive = TRUE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS Refines
CHECK_DEADLOCK FALSE
