SPECIFICATION Spec
CONSTANTS
  K = 2
  Sessions = 1
  Compare = "all"
  Wait = "first"
  Dispatch = "position"
  OnError = "stop"
  MaxFaults = 1
INVARIANTS QueryOnlyIfAgreed OwnMessage Verified Works Noticed ScheduleFree
PROPERTY Ends
