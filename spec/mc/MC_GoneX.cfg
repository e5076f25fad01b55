CONSTANTS
  Mode = "one"
  NMaxG = 5
  Starts <- MCStarts
SPECIFICATION Spec
INVARIANTS TableOK Emit
CHECK_DEADLOCK FALSE
