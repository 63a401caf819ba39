SPECIFICATION Spec
CONSTANTS MaxCols = 2
          MaxServers = 4
          Q = 3
          Levels = {1}
INVARIANTS Hidden Refused
CHECK_DEADLOCK FALSE
