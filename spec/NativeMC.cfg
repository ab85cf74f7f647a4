SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
INVARIANTS NoDuplicates
