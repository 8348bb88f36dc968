SPECIFICATION Spec
INVARIANTS UserFirst EmptyIsNone Steady NoGuess WasThere Emitted
CHECK_DEADLOCK FALSE
