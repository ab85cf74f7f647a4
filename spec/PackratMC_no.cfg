SPECIFICATION Spec
CONSTANTS
  GrammarOf <- JobGrammar
  AttrsOf <- JobAttrs
  TextOf <- JobText
  PlaceOf <- JobPlace
  ItemsA = {"a", "B", "b", "a?"}
  ItemsB = {"a", "A", "!b"}
  MaxSeq = 2
  MaxAltA = 2
  MaxAltB = 1
  MaxText = 2
  LR = "no"
INVARIANTS AgreesWithReference ErrorInText AtMostOnce Balanced Settled TableSound InText
