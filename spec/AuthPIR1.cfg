SPECIFICATION Spec
CONSTANTS NumRecords = 1
          MaxServers = 3
INVARIANTS Integrity Correct
CHECK_DEADLOCK FALSE
