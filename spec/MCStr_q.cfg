CONSTANTS NVars = 2 Chars = {97, 32} MaxLen = 2 Emit = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Laws
CHECK_DEADLOCK FALSE
