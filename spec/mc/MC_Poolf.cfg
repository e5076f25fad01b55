CONSTANTS
  KindsW <- MCKindsW
  MaxHeld = 5
  Depth = 1
  Exhaustive = TRUE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
