CONSTANTS
  PDens <- MCPDens
  PNums <- MCPNums
  Dens <- MCDens
  Nums <- MCNums
  Parts <- MCParts
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
