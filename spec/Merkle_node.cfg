SPECIFICATION Spec
CONSTANTS Items <- MadeItems
          MaxItems = 3
          Separated = FALSE
INVARIANTS Binding
CHECK_DEADLOCK FALSE
