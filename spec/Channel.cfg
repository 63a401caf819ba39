SPECIFICATION Spec
CONSTANTS K = 2
 Sessions = 2
 MaxFaults = 2
 Verify = "pinned"
 Fallback = FALSE
 Again = TRUE
 Integrity = TRUE
 Ordered = TRUE
INVARIANTS Secret RightOrError FromServers Works
PROPERTY Terminates
CHECK_DEADLOCK FALSE
