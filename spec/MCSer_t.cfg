CONSTANTS Emit=TRUE N=10 Bytes={128} MaxSize=2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Mirror
PROPERTIES PutGet
CHECK_DEADLOCK FALSE
