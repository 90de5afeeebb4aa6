SPECIFICATION Spec
CONSTANT Depth = 14
CHECK_DEADLOCK FALSE
