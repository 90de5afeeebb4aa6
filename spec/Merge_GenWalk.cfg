CONSTANTS
 Length = 6
 Pairs = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
