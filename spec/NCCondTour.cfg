SPECIFICATION Spec
INVARIANTS Agree Lacks Wrap
CHECK_DEADLOCK FALSE
