SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
World = "sockets"
Emit = TRUE
CHECK_DEADLOCK FALSE
