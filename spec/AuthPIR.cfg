SPECIFICATION Spec
CONSTANTS NumRecords = 3
          MaxServers = 3
INVARIANTS Integrity Correct
CHECK_DEADLOCK FALSE
