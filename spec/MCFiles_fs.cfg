CONSTANTS Emit = TRUE Kind = "fs" Texts = {1, 2, 3, 4, 5} MaxNodes = 4 MaxLen = 0 Alphabet = {}
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI IsTree
PROPERTIES Keep
CHECK_DEADLOCK FALSE
