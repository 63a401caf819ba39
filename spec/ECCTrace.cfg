SPECIFICATION Spec
CONSTANTS Symbols = {"a"}
          MaxT = 3
          MaxLen = 7
CHECK_DEADLOCK FALSE
