SPECIFICATION Spec
CONSTANTS
  K = 2
  Sessions = 2
  Compare = "all"
  Wait = "all"
  Dispatch = "position"
  OnError = "stop"
  MaxFaults = 1
INVARIANTS QueryOnlyIfAgreed OwnMessage Verified Works Noticed ScheduleFree
PROPERTY Ends
