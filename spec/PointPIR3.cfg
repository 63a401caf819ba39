SPECIFICATION Spec
CONSTANTS MaxRows = 1
          MaxCols = 3
          MaxBlock = 2
          MaxServers = 3
INVARIANTS Correct Untouched Sharing
CHECK_DEADLOCK FALSE
