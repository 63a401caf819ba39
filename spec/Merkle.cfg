SPECIFICATION Spec
CONSTANTS Items <- SomeItems
          MaxItems = 4
          Separated = TRUE
INVARIANTS Binding Complete RootsDiffer
CHECK_DEADLOCK FALSE
