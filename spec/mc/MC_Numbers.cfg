CONSTANTS
  Bases <- MCBases
  Offs <- MCOffs
  KindsN <- MCKindsN
  T = 16
  Depth = 80
  Exhaustive = FALSE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Separated HalfStays Found Emit
CHECK_DEADLOCK FALSE
