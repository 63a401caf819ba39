SPECIFICATION Spec
CONSTANTS MaxRows = 2
          MaxCols = 2
          MaxBlock = 1
          MaxServers = 3
INVARIANTS Correct Untouched Sharing
CHECK_DEADLOCK FALSE
