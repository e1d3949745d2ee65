CONSTANTS Emit = TRUE Kind = "read" MaxItems = 0 MaxDepth = 0 MaxLen = 7
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Again
CHECK_DEADLOCK FALSE
