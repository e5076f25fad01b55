CONSTANTS
  Kinds <- MCKinds
  Widths <- MCWidths
  Caps <- MCCaps
  NMax = 6
  NMaxM = 4
  KV = 2
  KM = 2
  Depth = 24
  GateIdx <- MCGates
  Exhaustive = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
