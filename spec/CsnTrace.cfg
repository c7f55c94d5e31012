CONSTANTS
    Sids <- TraceSids
    ScnOf <- TraceScn
    ErrMax = 10
    Tries = 10
SPECIFICATION TraceSpec
INVARIANT Report
INVARIANT SafeExit
CHECK_DEADLOCK FALSE
