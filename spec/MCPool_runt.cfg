CONSTANTS Emit=FALSE Kind="run" NO=2 NT=3 MaxOps=6 MaxLen=0 Preempt=0 Runs=0
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Counted Alive NotLost
CHECK_DEADLOCK FALSE
