SPECIFICATION Spec
CONSTANTS Names = {1, 2, 3}
 MaxOps = 4
 Way = "careful"
INVARIANTS Kept Part
CHECK_DEADLOCK FALSE
