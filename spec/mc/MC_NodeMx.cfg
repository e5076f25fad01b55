CONSTANTS
  KindsS <- MCKindsS
  Arity = 4
  Levels = 1
  NWeights = 1
  MaxNodes = 4
  Depth = 3
  Exhaustive = TRUE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS NoDangling UniqueOK HeldBelow Emit
CHECK_DEADLOCK FALSE
