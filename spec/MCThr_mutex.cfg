CONSTANTS Emit=TRUE Kind="mutex" NW=1 NP=3 MaxOps=0 MaxLen=2 Preempt=2 Runs=100
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Joined
CHECK_DEADLOCK FALSE
