SPECIFICATION Spec
CONSTANTS MaxCols = 1
          MaxServers = 3
          Q = 2
          Levels = {2}
INVARIANTS Hidden Refused
CHECK_DEADLOCK FALSE
