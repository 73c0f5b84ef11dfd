SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
World = "log"
Emit = TRUE
CHECK_DEADLOCK FALSE
