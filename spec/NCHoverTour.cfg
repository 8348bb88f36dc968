SPECIFICATION Spec
VIEW View
INVARIANTS I_InWord I_SameWord I_EndIsNothing I_SpaceSeparates I_ZerosDoNotCount
CHECK_DEADLOCK FALSE
