CONSTANTS Emit=TRUE Lo<-Minus1 Hi=2 Part="box" MaxSteps=5
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Ordered
PROPERTIES Grows
CHECK_DEADLOCK FALSE
