SPECIFICATION Spec
CONSTANTS Keys = {1,2,3,4}
          Emails = {1, 2}
          ChunkLimit = 1
INVARIANTS Kept Loaded
CHECK_DEADLOCK FALSE
