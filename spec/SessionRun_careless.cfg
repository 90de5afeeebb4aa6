SPECIFICATION Spec
CONSTANTS Names = {1, 2, 3}
 MaxOps = 3
 Way = "careless"
INVARIANTS Kept Part
CHECK_DEADLOCK FALSE
