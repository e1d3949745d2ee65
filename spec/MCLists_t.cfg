CONSTANTS Emit = TRUE MaxL = 5 MaxS = 6 NVar = 1 NT = 4
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI SortedInv TokenInv
CHECK_DEADLOCK FALSE
