SPECIFICATION Spec
CONSTANTS Symbols = {"a", "b", "c"}
          MaxT = 3
          MaxLen = 7
INVARIANTS VoteIsMajority Corrects NoWrongConfidence Unchanged
CHECK_DEADLOCK FALSE
