SPECIFICATION Spec
CONSTANTS Depths = {3}
          Q = 2
INVARIANTS Correct TreeInvariant
CHECK_DEADLOCK FALSE
