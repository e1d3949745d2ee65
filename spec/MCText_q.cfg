CONSTANTS Chars = {97, 50, 65} MaxA = 4 MaxB = 2 Emit = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Agree
CHECK_DEADLOCK FALSE
