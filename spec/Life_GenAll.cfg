SPECIFICATION GenSpec
CONSTANTS Slots = {1, 2, 3}
 Depth = 2
 Walk = FALSE
CHECK_DEADLOCK FALSE
