CONSTANTS
  Kinds <- MCKinds
  Widths <- MCWidths
  Caps <- MCCaps
  NMax = 4
  NMaxM = 3
  KV = 3
  KM = 3
  Depth = 60
  GateIdx <- MCGates
  Exhaustive = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
