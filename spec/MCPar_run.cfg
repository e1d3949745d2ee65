CONSTANTS Emit=FALSE Kind="run" MaxOps=4 Preempt=0 Runs=0
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Alone Printed LastError
CHECK_DEADLOCK FALSE
