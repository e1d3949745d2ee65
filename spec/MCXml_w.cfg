CONSTANTS Emit = TRUE Kind = "write" MaxItems = 3 MaxDepth = 2 MaxLen = 0
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Back Balanced
CHECK_DEADLOCK FALSE
