CONSTANTS Emit = TRUE Kind = "text" Texts = {} MaxNodes = 1 MaxLen = 5 Alphabet = {47, 46, 97, 228}
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Idem Apart Apart2
CHECK_DEADLOCK FALSE
