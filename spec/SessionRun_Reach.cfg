SPECIFICATION Spec
CONSTANTS Names = {1, 2, 3}
 MaxOps = 3
 Way = "careful"
INVARIANT Unreached
CHECK_DEADLOCK FALSE
