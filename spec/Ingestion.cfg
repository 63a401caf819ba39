SPECIFICATION Spec
CONSTANTS Keys = {1,2,3}
          Emails = {1, 2, 3}
          ChunkLimit = 0
INVARIANTS Kept Loaded
CHECK_DEADLOCK FALSE
