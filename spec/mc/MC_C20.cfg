CONSTANTS
  Kinds <- MCKinds
  Widths <- MCWidths
  Caps <- MCCaps
  NMax = 5
  NMaxM = 3
  KV = 3
  KM = 3
  Depth = 60
  GateIdx <- MCGates
  Exhaustive = FALSE
SPECIFICATION SpecR
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
