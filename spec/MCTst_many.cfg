CONSTANTS Emit=TRUE Kinds="few" MaxTests=3 MaxAsserts=1
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Apart Lines Within Seen Symmetric
CHECK_DEADLOCK FALSE
