CONSTANTS
 Length = 2
 Pairs = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
