SPECIFICATION Spec
VIEW View
INVARIANT Inv
CONSTANTS
N = 4
Emit = TRUE
CHECK_DEADLOCK FALSE
