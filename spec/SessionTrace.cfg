SPECIFICATION Spec
INVARIANT CallConforms
INVARIANT NothingLost
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
ALIAS Alias
