SPECIFICATION Spec
CONSTANTS
  K = 3
  Sessions = 1
  Compare = "pairs"
  Wait = "all"
  Dispatch = "position"
  OnError = "stop"
  MaxFaults = 1
INVARIANTS QueryOnlyIfAgreed OwnMessage Verified Works Noticed ScheduleFree
PROPERTY Ends
