CONSTANTS Emit = TRUE MaxT = 6 K = 8 P = 4 Chars = {37, 49, 50, 97}
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Sane Round Shown
PROPERTIES Uses
CHECK_DEADLOCK FALSE
