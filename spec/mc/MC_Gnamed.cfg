CONSTANTS
  Mode = "named"
  NMaxG = 0
  Starts <- MCStarts
SPECIFICATION Spec
INVARIANTS TableOK Emit
CHECK_DEADLOCK FALSE
