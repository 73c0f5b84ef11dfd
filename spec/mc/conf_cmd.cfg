SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
World = "cmd"
Emit = TRUE
CHECK_DEADLOCK FALSE
