SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
Emit = TRUE
Big = FALSE
CHECK_DEADLOCK FALSE
