CONSTANTS
 MaxRecs = 2
 Way = "replace"
SPECIFICATION Spec
INVARIANTS Unreached

CHECK_DEADLOCK FALSE
