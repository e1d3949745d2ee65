CONSTANTS Emit=TRUE Kind="log" Slots={1} NB=1 NV=1
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Lang Two
CHECK_DEADLOCK FALSE
