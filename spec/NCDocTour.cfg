SPECIFICATION Spec
VIEW View
INVARIANTS I_OnePerLine I_InLine I_BlankShifts I_PrefixStays I_NoBlockLeavesNothing
CHECK_DEADLOCK FALSE
