CONSTANTS Emit = TRUE MaxOps = 4 Lits = {97, 98, 255} Cuts = {1, 2}
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Understood Prefixes ByteRange
CHECK_DEADLOCK FALSE
