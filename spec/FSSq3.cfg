SPECIFICATION Spec
CONSTANTS Depths = {1, 2}
          Q = 3
INVARIANTS Correct TreeInvariant
CHECK_DEADLOCK FALSE
