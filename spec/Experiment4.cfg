SPECIFICATION Spec
CONSTANTS
  Servers = {1, 2, 3}
  Rows = 2
  Cols = 3
  DataBits = 2
  ProofBits = 1
  Wanted = {3, 12}
  Repetitions = 1
  Auth = TRUE
  Restarts = 0
  Design = "as is"
INVARIANTS Same Exact Verified Covers NoCrash Honest Reported
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
