SPECIFICATION Spec
CONSTANTS
  Servers = {1, 2}
  Rows = 2
  Cols = 2
  DataBits = 2
  ProofBits = 1
  Wanted = {1, 2, 4, 5, 6, 7, 8}
  Repetitions = 2
  Auth = TRUE
  Restarts = 1
  Design = "any start"
INVARIANTS NoCrash
CHECK_DEADLOCK FALSE
