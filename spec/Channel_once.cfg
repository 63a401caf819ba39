SPECIFICATION Spec
CONSTANTS K = 2
 Sessions = 2
 MaxFaults = 1
 Verify = "pinned"
 Fallback = FALSE
 Again = FALSE
 Integrity = TRUE
 Ordered = TRUE
INVARIANTS Secret

CHECK_DEADLOCK FALSE
