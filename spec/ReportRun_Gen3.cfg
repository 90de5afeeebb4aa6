SPECIFICATION GenSpec
CONSTANTS MaxFiles = 3
          MaxRecs = 1
          Sizes = {3}
CHECK_DEADLOCK FALSE
