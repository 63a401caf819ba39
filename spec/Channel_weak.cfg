SPECIFICATION Spec
CONSTANTS K = 2
 Sessions = 1
 MaxFaults = 1
 Verify = "pinned"
 Fallback = FALSE
 Again = TRUE
 Integrity = FALSE
 Ordered = TRUE
INVARIANTS RightOrError

CHECK_DEADLOCK FALSE
