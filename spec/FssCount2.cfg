SPECIFICATION Spec
CONSTANTS Q = 3
          Tags = 2
          MaxKeys = 2
          Emails <- MCEmails
          Texts <- MCTexts
          Years = {1, 3}
          Now = 2
INVARIANTS Correct Sound
CHECK_DEADLOCK FALSE
