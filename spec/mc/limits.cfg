SPECIFICATION Spec
CONSTANTS
    SEC = 1024
    SLK = 3
    Match <- SelfMatch
    FilterOk <- EveryFilterOk
    Model = "limits"
    Emit = FALSE
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
