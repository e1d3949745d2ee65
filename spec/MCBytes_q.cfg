CONSTANTS Emit = TRUE MaxL = 2 MaxK = 4 NVar = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Typed SortOk
CHECK_DEADLOCK FALSE
