CONSTANTS
 MaxRecs = 2
 Way = "filtered"
SPECIFICATION Spec
INVARIANTS OldOrNew

CHECK_DEADLOCK FALSE
