CONSTANTS Emit=TRUE Part="vec" Entries<-E1 Coords<-C2 MaxSteps=3
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Laws3
CHECK_DEADLOCK FALSE
