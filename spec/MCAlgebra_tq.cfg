CONSTANTS Emit=TRUE Part="trf" Entries<-E1 Coords<-C1 MaxSteps=3
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Laws
PROPERTIES Rigid Chain
CHECK_DEADLOCK FALSE
