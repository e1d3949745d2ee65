CONSTANTS Emit=FALSE Kind="run" NW=0 NP=3 MaxOps=5 MaxLen=0 Preempt=0 Runs=0
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Joined Woken OneRuns
CHECK_DEADLOCK FALSE
