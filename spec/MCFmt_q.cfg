CONSTANTS Emit = TRUE MaxT = 4 K = 4 P = 3 Chars = {37, 49, 50, 97}
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Sane Round Shown
PROPERTIES Uses
CHECK_DEADLOCK FALSE
