SPECIFICATION Spec
INVARIANTS UpToThreeBits
CHECK_DEADLOCK FALSE
