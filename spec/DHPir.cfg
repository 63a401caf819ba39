SPECIFICATION Spec
CONSTANTS Rows = 2
          Cols = 2
          Coefs <- Coefs3
          MaxBad = 1
INVARIANTS Integrity Correct Tight
CHECK_DEADLOCK FALSE
