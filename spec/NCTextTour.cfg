SPECIFICATION Spec
INVARIANTS OnlyLengths Back Meaning Keeps Twice Handed Arcs Removals
CHECK_DEADLOCK FALSE
