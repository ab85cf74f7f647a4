SPECIFICATION Spec
CONSTANTS
  GrammarOf <- JobGrammar
  AttrsOf <- JobAttrs
  TextOf <- JobText
  PlaceOf <- JobPlace
  ItemsA = {"a", "b", "B", "A"}
  ItemsB = {"a", "b", "A", "B"}
  MaxSeq = 1
  MaxAltA = 2
  MaxAltB = 2
  MaxText = 3
  LR = "any"
INVARIANTS AgreesWithReference ErrorInText AtMostOnce Balanced Settled TableSound InText
