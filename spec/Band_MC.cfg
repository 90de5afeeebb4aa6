SPECIFICATION Spec
CONSTANT Around = 3
INVARIANTS OneRow Nested Few Agree Faster Broadband
CHECK_DEADLOCK FALSE
