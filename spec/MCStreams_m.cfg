CONSTANTS Emit = TRUE Kinds <- KindsM MaxD = 4 MaxPos = 4 Chunks = {0, 1, 2} Steps = {0, 1, 3, 5}
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Pos Fixed
PROPERTIES Back Rest
CHECK_DEADLOCK FALSE
