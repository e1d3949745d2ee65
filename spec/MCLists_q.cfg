CONSTANTS Emit = TRUE MaxL = 3 MaxS = 4 NVar = 1 NT = 3
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI SortedInv TokenInv
CHECK_DEADLOCK FALSE
