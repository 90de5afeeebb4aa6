SPECIFICATION Spec
CONSTANTS MaxFiles = 2
          MaxRecs = 1
          Sizes = {0, 3}
INVARIANTS NoLateGet
CHECK_DEADLOCK FALSE
