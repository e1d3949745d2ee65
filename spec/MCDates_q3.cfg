CONSTANTS Emit = TRUE From = 1968 To = 1973 Alphabet = {} MaxLen = 0
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Agree Months
CHECK_DEADLOCK FALSE
