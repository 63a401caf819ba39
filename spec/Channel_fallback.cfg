SPECIFICATION Spec
CONSTANTS K = 2
 Sessions = 1
 MaxFaults = 1
 Verify = "pinned"
 Fallback = TRUE
 Again = TRUE
 Integrity = TRUE
 Ordered = TRUE
INVARIANTS Secret

CHECK_DEADLOCK FALSE
