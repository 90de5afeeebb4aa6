SPECIFICATION GenSpec
CONSTANTS Slots = {1, 2, 3, 4}
 Depth = 14
 Walk = TRUE
CHECK_DEADLOCK FALSE
