SPECIFICATION Spec
CONSTANTS NumRecords = 5
          MaxServers = 2
INVARIANTS Integrity Correct
CHECK_DEADLOCK FALSE
