CONSTANTS
 Ver = 2
 WPF = 5
 SeriesSet <- MCSeries2
 Limits = {0, 1, 2}
 ChainBias = {FALSE, TRUE}
 AllowUnused = 1
SPECIFICATION Spec
INVARIANTS Lossless Constants InLimit AllEncoded NoMore NotStuck
CHECK_DEADLOCK FALSE
