SPECIFICATION Spec
INVARIANTS PutGet Others GetThenPut
CHECK_DEADLOCK FALSE
