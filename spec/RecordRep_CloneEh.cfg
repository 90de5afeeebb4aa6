SPECIFICATION Spec
CONSTANTS a = a
 b = b
 c = c
 Slots = {a, b, c}
 Way = "clone shares extra headers"
INVARIANT Consistent
VIEW View
SYMMETRY Sym
CHECK_DEADLOCK FALSE
