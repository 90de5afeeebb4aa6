SPECIFICATION GenSpec
CONSTANTS Names = {1, 2, 3}
 Depth = 3
 Walk = FALSE
CHECK_DEADLOCK FALSE
