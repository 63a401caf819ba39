SPECIFICATION Spec
CONSTANTS Q = 5
          Tags = 1
          MaxKeys = 2
          Emails <- MCEmails
          Texts <- MCTexts
          Years = {1, 3}
          Now = 2
INVARIANTS Correct Sound
CHECK_DEADLOCK FALSE
