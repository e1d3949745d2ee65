CONSTANT Watch = {"none"}
INIT Init
NEXT Next
CONSTRAINT Mem
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
