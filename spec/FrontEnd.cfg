SPECIFICATION Spec
CONSTANTS
  K = 3
  Sessions = 1
  Compare = "all"
  Wait = "all"
  Dispatch = "position"
  OnError = "stop"
  MaxFaults = 2
INVARIANTS QueryOnlyIfAgreed OwnMessage Verified Works Noticed ScheduleFree
PROPERTY Ends
