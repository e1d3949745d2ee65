CONSTANTS Emit=TRUE Kind="life" NW=1 NP=1 MaxOps=0 MaxLen=3 Preempt=2 Runs=100
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Joined
CHECK_DEADLOCK FALSE
