SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTY PollOk
CONSTANTS
NS = 2
NF = 1
Offs = {0, 1}
Ops = {"time", "active"}
MaxOps = 1
InitOps = 4
Emit = TRUE
CHECK_DEADLOCK FALSE
