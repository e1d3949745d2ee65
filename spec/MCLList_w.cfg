CONSTANTS ND = 3 MaxLen = 4 MaxSteps = 0 Emit = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Linked
CHECK_DEADLOCK FALSE
