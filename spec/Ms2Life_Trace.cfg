SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Slots = {1, 2, 3, 4}
