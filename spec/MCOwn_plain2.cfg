CONSTANTS N = 2 MaxHeld = 2 MaxPool = 1 MaxSteps = 0 MaxCur = 0 WithTx = FALSE WithHist = FALSE Modes = {0, 1} Emit = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI AliveIffOwned NoDangling
PROPERTIES NoRevival
CHECK_DEADLOCK FALSE
