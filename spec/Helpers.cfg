SPECIFICATION Spec
CONSTANTS
  MaxPieces = 2
  MaxList = 4
  MaxLife = 6
CHECK_DEADLOCK FALSE
