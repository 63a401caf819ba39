SPECIFICATION Spec
CONSTANTS Rows = 2
          Cols = 1
          Q = 32
          E = 1
          Secrets = {5}
          Reps = 5
          Redraw = FALSE
INVARIANTS Correct
CHECK_DEADLOCK FALSE
