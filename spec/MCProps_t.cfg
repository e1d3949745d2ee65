CONSTANTS Emit=TRUE Editors<-Ed Texts<-Tx Wholes<-WSet3 Reals={0,4} MaxSteps=4 Others=FALSE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Reflexive Symmetric Taken Weaker
PROPERTIES Described
CHECK_DEADLOCK FALSE
