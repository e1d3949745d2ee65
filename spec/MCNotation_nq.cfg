CONSTANTS Emit = TRUE Kind = "nums" MaxB = 0 Bytes = {} Inits = {} MaxN = 1200
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI BackHex BackRoman NegTwice
CHECK_DEADLOCK FALSE
