CONSTANTS
  KindsW <- MCKindsW
  MaxHeld = 12
  Depth = 80
  Exhaustive = FALSE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
