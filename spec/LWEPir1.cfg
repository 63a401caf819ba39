SPECIFICATION Spec
CONSTANTS Rows = 1
          Cols = 1
          Q = 64
          E = 2
          Secrets = {0, 1, 33}
          Reps = 7
          Redraw = TRUE
INVARIANTS Correct Sound NoFlip Window
CHECK_DEADLOCK FALSE
