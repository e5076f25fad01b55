CONSTANTS
  KindsA <- MCKindsA
  Values <- MCValues
  K = 2
  Depth = 2
  Exhaustive = TRUE
SPECIFICATION Spec
INVARIANTS Emit FieldOK
CHECK_DEADLOCK FALSE
