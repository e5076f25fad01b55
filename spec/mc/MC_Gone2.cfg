CONSTANTS
  Mode = "one"
  NMaxG = 3
  Starts <- MCStarts
SPECIFICATION Spec
INVARIANTS TableOK Emit
CHECK_DEADLOCK FALSE
