CONSTANTS
 Ver = 2
 WPF = 5
 SeriesSet <- MCSmall2
 Limits = {0, 1}
 ChainBias = {TRUE}
 AllowUnused = 0
SPECIFICATION Spec
INVARIANTS Lossless Constants InLimit AllEncoded NoMore NotStuck
CHECK_DEADLOCK FALSE
