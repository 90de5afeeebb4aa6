SPECIFICATION Spec
INVARIANTS RoundTrip Mirror IntFloats
CHECK_DEADLOCK FALSE
