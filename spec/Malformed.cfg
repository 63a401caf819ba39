SPECIFICATION Spec
CONSTANTS Base = 5
          W = 2
          Lim = 1000
          Signal = 1
          Rows = 3
          Cols = 2
          MaxLen = 14
          MaxFaults = 2
          Schemes = {"lwe", "amplify"}
INVARIANTS Usable OnlyForAnswers
CHECK_DEADLOCK FALSE
