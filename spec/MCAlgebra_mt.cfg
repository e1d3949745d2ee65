CONSTANTS Emit=TRUE Part="mat" Entries<-E1 Coords<-C1 MaxSteps=4
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Laws
CHECK_DEADLOCK FALSE
