SPECIFICATION TraceSpec
INVARIANT CallConforms
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
ALIAS Alias
