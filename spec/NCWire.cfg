SPECIFICATION Spec
INVARIANTS Found InOrder
CHECK_DEADLOCK FALSE
