SPECIFICATION Spec
CONSTANTS Rows = 2
          Cols = 2
          Q = 32
          E = 1
          Secrets = {0, 5}
          Reps = 5
          Redraw = TRUE
INVARIANTS Correct Sound NoFlip Window
CHECK_DEADLOCK FALSE
