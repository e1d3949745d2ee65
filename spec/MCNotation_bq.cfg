CONSTANTS Emit = TRUE Kind = "bytes" MaxB = 4 Bytes = {0, 77, 255, 251, 62} Inits = {0, 49345, 65535} MaxN = 0
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Back64 Begin64 Parts Change
CHECK_DEADLOCK FALSE
