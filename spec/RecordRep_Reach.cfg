SPECIFICATION Spec
CONSTANTS a = a
 b = b
 c = c
 Slots = {a, b, c}
 Way = "own"
INVARIANT Unreached
VIEW View
SYMMETRY Sym
CHECK_DEADLOCK FALSE
