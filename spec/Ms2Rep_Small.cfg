SPECIFICATION Spec
CONSTANTS a = a
 b = b
 Slots = {a, b}
 Way = "own"
 MaxBlk = 1
INVARIANT Consistent
VIEW View
SYMMETRY Sym
CHECK_DEADLOCK FALSE
