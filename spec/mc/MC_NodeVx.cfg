CONSTANTS
  KindsS <- MCKindsS
  Arity = 2
  Levels = 2
  NWeights = 1
  MaxNodes = 4
  Depth = 4
  Exhaustive = TRUE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS NoDangling UniqueOK HeldBelow Emit
CHECK_DEADLOCK FALSE
