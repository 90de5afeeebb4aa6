CONSTANTS
 MaxRecs = 3
 Period = 4
 TwoEncodings = TRUE
SPECIFICATION Spec
INVARIANTS Nothing Times Counts InPlace FirstOnes NoMore OneStep
CHECK_DEADLOCK FALSE
