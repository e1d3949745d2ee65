CONSTANTS Emit=TRUE Flat<-F1 Space<-S1 Dirs<-D1
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Feet Lines Meets Arcs Circles
CHECK_DEADLOCK FALSE
