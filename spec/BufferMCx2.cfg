SPECIFICATION LiveSpec
CONSTANTS
  NIDS = 4
  CAP = 7
  Ticket = TRUE
  SignalFirst = TRUE
  SignalEmpty = FALSE
  Sticky = FALSE
  Faults = FALSE
  Calls = {"wdrain"}
  FlashMax = 9
INVARIANT Ordered
PROPERTY Drained
CHECK_DEADLOCK FALSE

