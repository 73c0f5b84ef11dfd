SPECIFICATION Spec
VIEW View
INVARIANT Inv
CONSTANTS
Ready = TRUE
Track = TRUE
Cmds = {"ping"}
Blocks = FALSE
Hows = {"v3", "v2", "accept", "query", "reply", "complete", "fail"}
MaxOps = 2
MaxSrv = 6
MaxBlock = 1
Emit = TRUE
CHECK_DEADLOCK FALSE
