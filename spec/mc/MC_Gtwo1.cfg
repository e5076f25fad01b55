CONSTANTS
  Mode = "two"
  NMaxG = 4
  Starts <- MCStarts
SPECIFICATION Spec
INVARIANTS TableOK Emit
CHECK_DEADLOCK FALSE
