SPECIFICATION Spec
CONSTANTS
  NIDS = 5
  CAP = 7
  Ticket = TRUE
  SignalFirst = FALSE
  SignalEmpty = FALSE
  Sticky = FALSE
  Faults = FALSE
  Calls = {"drain1", "drain", "wdrain", "wait", "pop", "peek"}
  FlashMax = 3
INVARIANT NoViol
INVARIANT Ordered
INVARIANT Once
INVARIANT NotLost

CHECK_DEADLOCK FALSE
VIEW View
