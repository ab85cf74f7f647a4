SPECIFICATION Spec
CONSTANTS
  MaxItems = 2
CHECK_DEADLOCK FALSE
