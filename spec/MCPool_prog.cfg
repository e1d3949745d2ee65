CONSTANTS Emit=TRUE Kind="prog" NO=1 NT=3 MaxOps=0 MaxLen=2 Preempt=2 Runs=150
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Counted
CHECK_DEADLOCK FALSE
