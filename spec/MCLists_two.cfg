CONSTANTS Emit = TRUE MaxL = 2 MaxS = 1 NVar = 2 NT = 2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI SortedInv TokenInv
CHECK_DEADLOCK FALSE
