SPECIFICATION LiveSpec
CONSTANTS
  NIDS = 5
  CAP = 7
  Ticket = TRUE
  SignalFirst = FALSE
  SignalEmpty = FALSE
  Sticky = FALSE
  Faults = FALSE
  Calls = {"wdrain"}
  FlashMax = 9
INVARIANT NoViol
INVARIANT Ordered
INVARIANT Once
INVARIANT NotLost
PROPERTY Drained
CHECK_DEADLOCK FALSE

