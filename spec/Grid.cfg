SPECIFICATION Spec
INVARIANT LawsHold
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
