SPECIFICATION Spec
CONSTANTS Rows = 1
          Cols = 3
          Coefs <- Coefs2
          MaxBad = 1
INVARIANTS Integrity Correct Tight
CHECK_DEADLOCK FALSE
