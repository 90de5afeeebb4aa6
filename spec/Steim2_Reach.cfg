CONSTANTS
 Ver = 2
 WPF = 5
 SeriesSet <- MCSeries2
 Limits = {0, 1, 2}
 ChainBias = {FALSE, TRUE}
 AllowUnused = 1
SPECIFICATION Spec
INVARIANTS Unreached
CHECK_DEADLOCK FALSE
