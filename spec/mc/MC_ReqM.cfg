CONSTANTS
  KindsQ <- MCKindsQ
  Arity = 4
  Levels = 3
  K = 5
  Depth = 80
SPECIFICATION Spec
INVARIANTS Stable Emit
CHECK_DEADLOCK FALSE
