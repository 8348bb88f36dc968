SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTIES I_StraightIsDistance I_ModesPersist I_OnlyWordsMove I_RejectedRests I_ArcsJoin I_HelixInForce I_DrillReturns I_DrillRepeats I_CancelForgets I_CycleKeeps I_RateForCuts I_Measured I_ToolByExchange I_SpindleOnce I_InTravel I_UnitsByCode I_SameAsLiteral I_UndefinedRests I_SystemByWord I_Constants
CHECK_DEADLOCK FALSE
