CONSTANTS Emit = TRUE From = 1999 To = 2002 Alphabet = {} MaxLen = 0
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Agree Months
CHECK_DEADLOCK FALSE
