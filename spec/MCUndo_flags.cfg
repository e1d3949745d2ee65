CONSTANTS NF = 1 NV = 2 MaxUndo = 1 MaxCur = 1 MaxTx = 1 MaxLevel = 1 WithTx = TRUE WithFlags = TRUE WithDoc = FALSE Raw = FALSE Emit = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI StepsLinked ChangesSuffice TxShape
PROPERTIES UndoInverse RollbackNoTrace CommitWhole FailedRollsBack Unrecorded Kept
CHECK_DEADLOCK FALSE
