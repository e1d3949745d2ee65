CONSTANTS Emit=TRUE Flat<-F2 Space<-S2 Dirs<-D2
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Feet Lines Meets Arcs Circles
CHECK_DEADLOCK FALSE
