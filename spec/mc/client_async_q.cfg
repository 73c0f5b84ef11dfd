SPECIFICATION Spec
VIEW View
INVARIANT Inv
CONSTANTS
Ready = TRUE
Track = FALSE
Cmds = {"ping", "subscribe"}
Blocks = FALSE
Hows = {"v2", "accept", "notify", "complete", "fail", "cmd", "junk", "eof"}
MaxOps = 2
MaxSrv = 4
MaxBlock = 0
Emit = TRUE
CHECK_DEADLOCK FALSE
