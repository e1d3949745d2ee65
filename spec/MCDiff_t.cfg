CONSTANTS Emit=TRUE Values={1,2,3} MaxLen=4
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Metric Least
PROPERTIES Lipschitz
CHECK_DEADLOCK FALSE
