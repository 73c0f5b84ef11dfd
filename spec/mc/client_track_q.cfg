SPECIFICATION Spec
VIEW View
INVARIANT Inv
CONSTANTS
Ready = TRUE
Track = TRUE
Cmds = {"ping"}
Blocks = FALSE
Hows = {"v3", "v2", "accept", "query", "reply", "complete", "fail"}
MaxOps = 1
MaxSrv = 5
MaxBlock = 0
Emit = TRUE
CHECK_DEADLOCK FALSE
