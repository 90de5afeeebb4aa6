CONSTANT LastYear = 420
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
