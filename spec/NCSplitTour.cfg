SPECIFICATION Spec
INVARIANTS Whole Seams Limits Tools Texts
CHECK_DEADLOCK FALSE
