SPECIFICATION Spec
CONSTANTS
  MaxMore = 2
CHECK_DEADLOCK FALSE
