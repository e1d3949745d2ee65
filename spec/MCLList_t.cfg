CONSTANTS ND = 2 MaxLen = 3 MaxSteps = 2 Emit = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Linked
CHECK_DEADLOCK FALSE
