CONSTANTS Emit=TRUE Editors<-Ed1 Texts<-Tx Wholes<-WSet Reals={0,4} MaxSteps=3 Others=TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Reflexive Symmetric Taken Weaker
PROPERTIES Described
CHECK_DEADLOCK FALSE
