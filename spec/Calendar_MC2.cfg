CONSTANT LastYear = 2100
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
