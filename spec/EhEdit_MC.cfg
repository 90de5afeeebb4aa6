CONSTANTS
 MaxRecs = 2
 Way = "replace"
SPECIFICATION Spec
INVARIANTS OldOrNew Success Failure
PROPERTIES OneWay Terminates
CHECK_DEADLOCK FALSE
