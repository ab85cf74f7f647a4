SPECIFICATION TSpec
CONSTANTS
  GrammarOf <- CaseGrammar
  AttrsOf <- CaseAttrs
  TextOf <- CaseText
  PlaceOf <- CasePlace
  ToptOf <- CaseTopt
  OptsOf <- CaseOpts
CHECK_DEADLOCK FALSE
