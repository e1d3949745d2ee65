CONSTANTS Emit=TRUE Values={0,1,128,254,255} Keys={0,100,255} Alphas={0,1,3,128,254,255} Shares={0,1,100,255} MaxSteps=3
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitT
INVARIANTS EmitI Typed Allowed Kept Greys Once Group
CHECK_DEADLOCK FALSE
