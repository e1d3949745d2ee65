CONSTANTS NF = 40 NO = 2 Watch = {"values", "stacks", "open"}
INIT Init
NEXT Next
CONSTRAINT Mem
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
