CONSTANTS Emit = TRUE Kinds <- KindsFF MaxD = 2 MaxPos = 2 Chunks = {1, 2} Steps = {1, 3}
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Pos Fixed
PROPERTIES Back Rest
CHECK_DEADLOCK FALSE
