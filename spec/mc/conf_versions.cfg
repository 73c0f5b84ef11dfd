SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
World = "versions"
Emit = TRUE
CHECK_DEADLOCK FALSE
