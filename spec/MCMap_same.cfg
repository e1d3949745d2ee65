CONSTANTS Emit=TRUE Kind="same" NK=4 NV=1
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Typed
PROPERTIES PutGet RemoveGone
CHECK_DEADLOCK FALSE
