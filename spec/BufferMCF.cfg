SPECIFICATION Spec
CONSTANTS
  NIDS = 3
  CAP = 7
  Ticket = TRUE
  SignalFirst = FALSE
  SignalEmpty = FALSE
  Sticky = FALSE
  Faults = TRUE
  Calls = {"drain1", "drain", "wdrain", "wait", "pop", "peek"}
  FlashMax = 3
INVARIANT NoViol
INVARIANT Ordered
INVARIANT Once
INVARIANT NotLost

CHECK_DEADLOCK FALSE
VIEW View
