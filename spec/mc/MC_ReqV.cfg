CONSTANTS
  KindsQ <- MCKindsQ
  Arity = 2
  Levels = 4
  K = 5
  Depth = 80
SPECIFICATION Spec
INVARIANTS Stable Emit
CHECK_DEADLOCK FALSE
