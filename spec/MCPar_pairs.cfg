CONSTANTS Emit=TRUE Kind="pairs" MaxOps=0 Preempt=2 Runs=150
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI
CHECK_DEADLOCK FALSE
