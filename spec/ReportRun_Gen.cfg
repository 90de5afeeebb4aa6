SPECIFICATION GenSpec
CONSTANTS MaxFiles = 2
          MaxRecs = 2
          Sizes = {3}
CHECK_DEADLOCK FALSE
