CONSTANTS
  KindsS <- MCKindsS
  Arity = 2
  Levels = 2
  NWeights = 1
  MaxNodes = 3
  Depth = 1
  Exhaustive = TRUE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS NoDangling UniqueOK HeldBelow
CHECK_DEADLOCK FALSE
CONSTRAINT Bound
