SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK
PROPERTIES SameArgs StartsWithThem OneServer AsksOnce NoNoise ReloadWished OneTool Twice
CHECK_DEADLOCK FALSE
