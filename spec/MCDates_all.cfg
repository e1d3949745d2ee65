CONSTANTS Emit = FALSE From = 1600 To = 2001 Alphabet = {} MaxLen = 0
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Agree Months
CHECK_DEADLOCK FALSE
