SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
World = "limits"
Emit = TRUE
CHECK_DEADLOCK FALSE
