CONSTANTS
  KindsB <- MCKindsB
  N = 16
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
