SPECIFICATION Spec
CONSTANTS Rows = 2
          Cols = 2
          Coefs <- Coefs2
          MaxBad = 2
INVARIANTS Integrity Correct Tight
CHECK_DEADLOCK FALSE
