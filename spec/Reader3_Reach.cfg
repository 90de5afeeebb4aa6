CONSTANTS TwoBits = FALSE
SPECIFICATION Spec
INVARIANTS WithoutCheck
CHECK_DEADLOCK FALSE
