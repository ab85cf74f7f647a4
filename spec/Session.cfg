SPECIFICATION SSpec
CONSTANTS
  GrammarOf <- SGrammar
  AttrsOf <- SAttrs
  TextOf <- SText
  PlaceOf <- SPlace
  ToptOf <- STopt
  OptsOf <- SOpts
CHECK_DEADLOCK FALSE
