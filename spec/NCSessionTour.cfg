SPECIFICATION Spec
VIEW View
INVARIANTS I_OneReplyEach I_DiagnosticsEach I_CurrentText I_SilentLeavesNothing I_OthersLeaveNothing
CHECK_DEADLOCK FALSE
