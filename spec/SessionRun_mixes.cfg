SPECIFICATION Spec
CONSTANTS Names = {1, 2, 3}
 MaxOps = 3
 Way = "mixes"
INVARIANTS Kept Part
CHECK_DEADLOCK FALSE
