SPECIFICATION Spec
CONSTANTS K = 3
 Sessions = 2
 MaxFaults = 2
 Verify = "pinned"
 Fallback = FALSE
 Again = TRUE
 Integrity = TRUE
 Ordered = TRUE
INVARIANTS Secret RightOrError FromServers Works

CHECK_DEADLOCK FALSE
