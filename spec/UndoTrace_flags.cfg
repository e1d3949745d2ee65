CONSTANTS NF = 40 NO = 2 Watch = {"changed", "regen", "open", "doc"}
INIT Init
NEXT Next
CONSTRAINT Mem
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
