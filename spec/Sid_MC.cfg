SPECIFICATION Spec
CONSTANTS
  MaxText = 7
  MaxCode = 2
INVARIANTS ParsePrint PrintParse Enclosed ValidUp ThreeOrMore NslcBack Networks OneMeaning
CHECK_DEADLOCK FALSE
