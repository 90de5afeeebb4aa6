CONSTANTS TwoBits = FALSE
SPECIFICATION Spec
INVARIANTS CleanComplete NeverDamaged BeforeDamage DamageNoticed MachineIsRun
CHECK_DEADLOCK FALSE
