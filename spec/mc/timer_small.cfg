SPECIFICATION Spec
VIEW View
INVARIANT Inv
CONSTANTS
N = 3
Emit = TRUE
CHECK_DEADLOCK FALSE
