SPECIFICATION Spec
CONSTANTS Requests = {1,2,3,4}
          Capacity = 2
          Malformed = {2}
          Peers = "act"
          Design = "as is"
INVARIANTS OwnAnswer Refused Bounded NoCrash Finished
PROPERTIES Resolved Terminates
CHECK_DEADLOCK FALSE
