SPECIFICATION InitTraceSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
