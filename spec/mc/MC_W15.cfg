CONSTANTS
  KindsX <- MCKindsX
  WidthSet <- MCWidthSet
  WMax = 128
  KV = 3
  KM = 3
  Depth = 30
SPECIFICATION Spec
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
