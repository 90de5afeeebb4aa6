SPECIFICATION Spec
INVARIANTS NeverBroken
CHECK_DEADLOCK FALSE
