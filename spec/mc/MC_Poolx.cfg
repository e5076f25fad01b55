CONSTANTS
  KindsW <- MCKindsW
  MaxHeld = 4
  Depth = 5
  Exhaustive = TRUE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
