SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
Emit = TRUE
Big = TRUE
CHECK_DEADLOCK FALSE
