SPECIFICATION Spec
CONSTANTS
  Symbols = {"a", "nl"}
  MaxLen = 3
  StreamKind = "tok"
INVARIANTS InBounds Coordinates Running
