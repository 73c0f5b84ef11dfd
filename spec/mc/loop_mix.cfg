SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTY PollOk
CONSTANTS
NS = 2
NF = 2
Offs = {0, 1}
Ops = {"fd", "close", "time", "active"}
MaxOps = 1
InitOps = 4
Emit = TRUE
CHECK_DEADLOCK FALSE
