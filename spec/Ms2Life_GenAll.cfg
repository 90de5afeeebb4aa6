SPECIFICATION GenSpec
CONSTANTS Slots = {1, 2, 3}
 Depth = 3
 Walk = FALSE
CHECK_DEADLOCK FALSE
