CONSTANTS
  Bases <- MCBases
  Offs <- MCOffs
  KindsN <- MCKindsN
  T = 2
  Depth = 5
  Exhaustive = TRUE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Separated HalfStays Found Emit
CHECK_DEADLOCK FALSE
