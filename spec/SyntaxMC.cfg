SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Alphabet = 1
CHECK_DEADLOCK FALSE
