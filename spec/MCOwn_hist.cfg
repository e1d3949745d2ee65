CONSTANTS N = 2 MaxHeld = 1 MaxPool = 1 MaxSteps = 2 MaxCur = 1 WithTx = FALSE WithHist = TRUE Modes = {0} Emit = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI AliveIffOwned NoDangling
PROPERTIES NoRevival
CHECK_DEADLOCK FALSE
