SPECIFICATION Spec
CONSTANTS K = 2
 Sessions = 2
 MaxFaults = 2
 Verify = "pinned"
 Fallback = FALSE
 Again = TRUE
 Integrity = TRUE
 Ordered = FALSE
INVARIANTS RightOrError

CHECK_DEADLOCK FALSE
