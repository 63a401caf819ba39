SPECIFICATION Spec
CONSTANTS Items <- MadeItems
          MaxItems = 3
          Separated = FALSE
INVARIANTS RootsDiffer
CHECK_DEADLOCK FALSE
