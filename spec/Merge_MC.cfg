CONSTANTS
 MaxRecs = 3
 Period = 4
 TwoEncodings = FALSE
SPECIFICATION Spec
INVARIANTS Nothing Times Counts InPlace FirstOnes NoMore OneStep
CHECK_DEADLOCK FALSE
