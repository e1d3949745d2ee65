CONSTANTS Emit=TRUE Kind="map" NV=5 MaxLen=0 NE=0
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Kept
CHECK_DEADLOCK FALSE
