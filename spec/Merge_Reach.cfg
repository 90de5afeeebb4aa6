CONSTANTS
 MaxRecs = 3
 Period = 4
 TwoEncodings = FALSE
SPECIFICATION Spec
INVARIANTS Unreached
CHECK_DEADLOCK FALSE
