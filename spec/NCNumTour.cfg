SPECIFICATION Spec
INVARIANTS OnlyNumbers Sequence Within Every Again
CHECK_DEADLOCK FALSE
