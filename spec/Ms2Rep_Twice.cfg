SPECIFICATION Spec
CONSTANTS a = a
 b = b
 Slots = {a, b}
 Way = "adds always"
 MaxBlk = 2
INVARIANT Consistent
VIEW View
SYMMETRY Sym
CHECK_DEADLOCK FALSE
