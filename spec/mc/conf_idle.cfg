SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
World = "idle"
Emit = TRUE
CHECK_DEADLOCK FALSE
