SPECIFICATION Spec
VIEW View
INVARIANT Inv
CONSTANTS
Ready = FALSE
Track = FALSE
Cmds = {"ping", "services"}
Blocks = TRUE
Hows = {"v3", "accept", "notify", "complete", "fail"}
MaxOps = 2
MaxSrv = 5
MaxBlock = 1
Emit = TRUE
CHECK_DEADLOCK FALSE
