SPECIFICATION Spec
CONSTANTS MaxCols = 3
          MaxServers = 3
          Q = 2
          Levels = {1}
INVARIANTS Hidden Refused
CHECK_DEADLOCK FALSE
