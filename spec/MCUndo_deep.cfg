CONSTANTS NF = 2 NV = 2 MaxUndo = 3 MaxCur = 2 MaxTx = 2 MaxLevel = 2 WithTx = TRUE WithFlags = FALSE WithDoc = FALSE Raw = FALSE Emit = FALSE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
INVARIANTS EmitI StepsLinked ChangesSuffice TxShape
PROPERTIES UndoInverse RollbackNoTrace CommitWhole FailedRollsBack Unrecorded Kept
CHECK_DEADLOCK FALSE
