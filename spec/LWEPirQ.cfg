SPECIFICATION Spec
CONSTANTS Rows = 2
          Cols = 1
          Q = 32
          E = 1
          Secrets = {5}
          Reps = 5
          Redraw = TRUE
INVARIANTS Correct Sound NoFlip Window
CHECK_DEADLOCK FALSE
