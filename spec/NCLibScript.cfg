SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK I_RangeHolds I_HistHolds I_HistKnown I_RangeWidens I_ResetIsStart I_FewerJudges I_OnlyRead I_NothingMoves
CHECK_DEADLOCK FALSE
