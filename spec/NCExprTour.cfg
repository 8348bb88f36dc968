SPECIFICATION Spec
INVARIANTS Agree RoundTrip Bracketed Complete
CHECK_DEADLOCK FALSE
