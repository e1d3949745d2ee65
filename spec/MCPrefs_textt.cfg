CONSTANTS Emit=TRUE Kind="text" NV=1 MaxLen=5 NE=0
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI KeptT
CHECK_DEADLOCK FALSE
