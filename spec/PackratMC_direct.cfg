SPECIFICATION Spec
CONSTANTS
  GrammarOf <- JobGrammar
  AttrsOf <- JobAttrs
  TextOf <- JobText
  PlaceOf <- JobPlace
  ItemsA = {"a", "b", "B", "A"}
  ItemsB = {"a", "b", "A"}
  MaxSeq = 2
  MaxAltA = 2
  MaxAltB = 1
  MaxText = 3
  LR = "direct"
INVARIANTS AgreesWithReference ErrorInText AtMostOnce Balanced Settled TableSound InText
