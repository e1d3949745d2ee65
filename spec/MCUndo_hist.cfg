CONSTANTS NF = 2 NV = 2 MaxUndo = 2 MaxCur = 1 MaxTx = 0 MaxLevel = 0 WithTx = FALSE WithFlags = FALSE WithDoc = FALSE Raw = TRUE Emit = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI StepsLinked ChangesSuffice TxShape
PROPERTIES UndoInverse RollbackNoTrace CommitWhole FailedRollsBack Unrecorded Kept
CHECK_DEADLOCK FALSE
