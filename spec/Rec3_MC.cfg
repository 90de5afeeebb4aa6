CONSTANT MaxLen = 2
SPECIFICATION Spec
INVARIANTS ParseOfLayout ShorterIsRefused Size
CHECK_DEADLOCK FALSE
