CONSTANTS Emit=TRUE Kind="cat" NV=1 MaxLen=0 NE=2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Given Nothing
CHECK_DEADLOCK FALSE
