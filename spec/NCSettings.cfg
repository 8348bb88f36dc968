SPECIFICATION Spec
INVARIANTS NoGuess Steady Blamed Emitted
CHECK_DEADLOCK FALSE
