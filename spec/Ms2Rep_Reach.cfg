SPECIFICATION Spec
CONSTANTS a = a
 b = b
 Slots = {a, b}
 Way = "own"
 MaxBlk = 2
INVARIANT Unreached
VIEW View
SYMMETRY Sym
CHECK_DEADLOCK FALSE
