SPECIFICATION Spec
INVARIANTS CompleteServed SpareIgnored NotesSilent
CHECK_DEADLOCK FALSE
