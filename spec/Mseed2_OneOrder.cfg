SPECIFICATION Spec
INVARIANT OneOrder
CHECK_DEADLOCK FALSE
