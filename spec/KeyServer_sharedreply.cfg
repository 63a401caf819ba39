SPECIFICATION Spec
CONSTANTS Requests = {1,2,3}
          Capacity = 1
          Malformed = {2}
          Peers = "act"
          Design = "shared reply"
INVARIANTS OwnAnswer Refused Bounded NoCrash Finished
PROPERTIES Resolved Terminates
CHECK_DEADLOCK FALSE
