CONSTANTS Emit=TRUE Kind="life" Slots={1,2} NB=2 NV=1
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI 
PROPERTIES KeptP FoundP ApartP
CHECK_DEADLOCK FALSE
