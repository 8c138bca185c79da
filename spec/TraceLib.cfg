SPECIFICATION TraceSpec
INVARIANT ReportsAgree
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
ALIAS Where
