CONSTANTS Emit=TRUE N=10 Bytes={0,128} MaxSize=1
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Mirror
PROPERTIES PutGet
CHECK_DEADLOCK FALSE
