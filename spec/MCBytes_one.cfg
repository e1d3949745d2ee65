CONSTANTS Emit = TRUE MaxL = 4 MaxK = 1 NVar = 1
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Typed SortOk
CHECK_DEADLOCK FALSE
