CONSTANTS Emit = TRUE NVar = 1 MaxE = 3 Names = {"a", "b", "u"} Datas = {0, 1, 2} Cuts = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Format Truncated
PROPERTIES RoundTrip
CHECK_DEADLOCK FALSE
