SPECIFICATION Spec
INVARIANTS Complete Format MachineIsRun2
CHECK_DEADLOCK FALSE
