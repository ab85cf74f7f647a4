SPECIFICATION Spec
CONSTANTS
  Strict = FALSE
  MaxLen = 3
  Alphabet = 1
  Every = 1
CHECK_DEADLOCK FALSE
