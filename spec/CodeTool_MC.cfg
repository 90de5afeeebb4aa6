SPECIFICATION Spec
CONSTANT Most = 3
INVARIANT Beginning Complete RefusedOnlyThen OkOnlyThen Tables FromRows
PROPERTY EndsUp
CHECK_DEADLOCK FALSE
