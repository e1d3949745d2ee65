CONSTANT N = 8
INIT Init
NEXT Next
CONSTRAINT Mem
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
