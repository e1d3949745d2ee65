CONSTANTS Emit=TRUE Lo<-Minus1 Hi=2 Part="rect" MaxSteps=4
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Sets Norm Ordered
PROPERTIES Moves Grows
CHECK_DEADLOCK FALSE
