CONSTANTS
 Ver = 2
 WPF = 16
 SeriesSet <- GenSeries
 Limits = {0, 1, 2, 3}
 ChainBias = {FALSE, TRUE}
 AllowUnused = 3
SPECIFICATION GenSpec
INVARIANTS Lossless Constants InLimit AllEncoded NoMore
CHECK_DEADLOCK FALSE
