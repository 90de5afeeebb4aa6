SPECIFICATION Spec
INVARIANTS CutOff Within Agrees Strict
PROPERTY Ends
CHECK_DEADLOCK FALSE
