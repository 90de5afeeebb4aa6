SPECIFICATION Spec
CONSTANTS a = a
 b = b
 c = c
 Slots = {a, b, c}
 Way = "own"
INVARIANT Consistent
VIEW View
SYMMETRY Sym
CHECK_DEADLOCK FALSE
