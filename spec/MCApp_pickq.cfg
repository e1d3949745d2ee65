CONSTANTS Emit=TRUE Kind="pick" Slots={1} NB=2 NV=1
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Choose Lang
CHECK_DEADLOCK FALSE
