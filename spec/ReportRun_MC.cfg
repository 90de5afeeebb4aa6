SPECIFICATION Spec
CONSTANTS MaxFiles = 2
          MaxRecs = 2
          Sizes = {0, 3}
INVARIANTS Right InOrder ReadOnly
PROPERTY Ends
CHECK_DEADLOCK FALSE
