CONSTANTS Emit=TRUE N=12 Kinds={0,1,2,3,4}
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Unique
CHECK_DEADLOCK FALSE
