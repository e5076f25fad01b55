CONSTANTS
  KindsA <- MCKindsA
  Values <- MCValues
  K = 4
  Depth = 100
  Exhaustive = FALSE
SPECIFICATION Spec
INVARIANTS Emit FieldOK
CHECK_DEADLOCK FALSE
