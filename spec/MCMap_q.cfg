CONSTANTS Emit = TRUE Kind = "mixed" NK = 5 NV = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Typed
PROPERTIES PutGet RemoveGone
CHECK_DEADLOCK FALSE
