CONSTANTS
 MaxRecs = 2
 Way = "early"
SPECIFICATION Spec
INVARIANTS OldOrNew

CHECK_DEADLOCK FALSE
