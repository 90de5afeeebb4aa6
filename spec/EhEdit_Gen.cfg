SPECIFICATION GenSpec
CONSTANTS MaxRecs = 2
 Way = "replace"
CHECK_DEADLOCK FALSE
