CONSTANTS Emit = TRUE Kind = "bytes" MaxB = 5 Bytes = {0, 1, 77, 251, 62, 128} Inits = {0, 1, 65535} MaxN = 0
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Back64 Begin64 Parts Change
CHECK_DEADLOCK FALSE
