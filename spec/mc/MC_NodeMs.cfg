CONSTANTS
  KindsS <- MCKindsS
  Arity = 4
  Levels = 4
  NWeights = 3
  MaxNodes = 14
  Depth = 70
  Exhaustive = FALSE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS NoDangling UniqueOK HeldBelow Emit
CHECK_DEADLOCK FALSE
