SPECIFICATION Spec
CONSTANTS Depths = {1, 2}
          Q = 2
INVARIANTS Correct TreeInvariant
CHECK_DEADLOCK FALSE
