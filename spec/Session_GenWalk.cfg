SPECIFICATION GenSpec
CONSTANTS Names = {1, 2, 3, 4}
 Depth = 12
 Walk = TRUE
CHECK_DEADLOCK FALSE
