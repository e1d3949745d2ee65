CONSTANTS Emit=TRUE Big=TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Ends Inside2 Moved Circle
CHECK_DEADLOCK FALSE
