SPECIFICATION Spec
CONSTANT Most = 2
INVARIANT NeverRefusedLate
CHECK_DEADLOCK FALSE
