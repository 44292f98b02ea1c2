SPECIFICATION TraceSpec
CONSTRAINT ProgressDbg
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
