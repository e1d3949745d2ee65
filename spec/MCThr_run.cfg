CONSTANTS Emit=FALSE Kind="run" NW=1 NP=1 MaxOps=6 MaxLen=0 Preempt=0 Runs=0
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Joined Named NotAsleep Woken NoOrphan OneRuns
CHECK_DEADLOCK FALSE
