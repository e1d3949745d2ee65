CONSTANTS Emit=TRUE Kinds="all" MaxTests=1 MaxAsserts=1
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Apart Lines Within Seen Symmetric
CHECK_DEADLOCK FALSE
