CONSTANTS NF = 40 NO = 2 Watch = {"values", "stacks", "open", "txstat"}
INIT Init
NEXT Next
CONSTRAINT Mem
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
