CONSTANTS Emit = TRUE NVar = 2 MaxE = 1 Names = {"a", "pk"} Datas = {0, 3} Cuts = FALSE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Format
PROPERTIES RoundTrip
CHECK_DEADLOCK FALSE
