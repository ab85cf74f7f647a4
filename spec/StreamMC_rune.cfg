SPECIFICATION Spec
CONSTANTS
  Symbols = {"a", "b", "nl", "eacute"}
  MaxLen = 3
  StreamKind = "rune"
INVARIANTS InBounds Coordinates Monotone Running
