CONSTANTS
 MaxRecs = 2
 Way = "in place"
SPECIFICATION Spec
INVARIANTS OldOrNew

CHECK_DEADLOCK FALSE
