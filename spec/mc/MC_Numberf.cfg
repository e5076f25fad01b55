CONSTANTS
  Bases <- MCBases
  Offs <- MCOffs
  KindsN <- MCKindsN
  T = 1
  Depth = 1
  Exhaustive = TRUE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS Separated HalfStays Found
CHECK_DEADLOCK FALSE
CONSTRAINT Bound
