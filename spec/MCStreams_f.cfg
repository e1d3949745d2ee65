CONSTANTS Emit = TRUE Kinds <- KindsF MaxD = 4 MaxPos = 5 Chunks = {0, 1, 2} Steps = {0, 1, 3}
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Pos Fixed
PROPERTIES Back Rest
CHECK_DEADLOCK FALSE
