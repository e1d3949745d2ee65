CONSTANTS Emit = TRUE From = 1970 To = 1970 Alphabet = {39, 121, 77, 69, 72, 109, 46, 88} MaxLen = 5
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Whole
CHECK_DEADLOCK FALSE
