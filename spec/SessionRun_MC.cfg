SPECIFICATION Spec
CONSTANTS Names = {1, 2, 3}
 MaxOps = 3
 Way = "careful"
INVARIANTS Kept Part
CHECK_DEADLOCK FALSE
