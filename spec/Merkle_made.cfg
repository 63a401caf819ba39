SPECIFICATION Spec
CONSTANTS Items <- MadeItems
          MaxItems = 3
          Separated = TRUE
INVARIANTS Binding Complete RootsDiffer
CHECK_DEADLOCK FALSE
