CONSTANTS
  Mode = "two"
  NMaxG = 5
  Starts <- MCStarts
SPECIFICATION Spec
INVARIANTS TableOK Emit
CHECK_DEADLOCK FALSE
