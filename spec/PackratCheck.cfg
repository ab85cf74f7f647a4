SPECIFICATION Spec
CONSTANTS
  GrammarOf <- CaseGrammar
  AttrsOf <- CaseAttrs
  TextOf <- CaseText
  PlaceOf <- CasePlace
