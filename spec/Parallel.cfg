SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Cells = {1, 2, 3}
  Sync = TRUE
INVARIANTS NoRace OnlyItsValue Alone
PROPERTIES Kept Ends
CHECK_DEADLOCK FALSE
