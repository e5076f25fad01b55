CONSTANTS
  KindsW <- MCKindsW
  MaxHeld = 4
  Depth = 6
  Exhaustive = TRUE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
