CONSTANTS Emit = TRUE MaxL = 3 MaxK = 7 NVar = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Typed SortOk
CHECK_DEADLOCK FALSE
