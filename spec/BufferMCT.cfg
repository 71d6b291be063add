SPECIFICATION Spec
CONSTANTS
  NIDS = 6
  CAP = 9
  Ticket = TRUE
  SignalFirst = FALSE
  SignalEmpty = FALSE
  Sticky = FALSE
  Faults = FALSE
  Calls = {"drain1", "drain", "wdrain", "wait", "pop", "peek"}
  FlashMax = 4
INVARIANT NoViol
INVARIANT Ordered
INVARIANT Once
INVARIANT NotLost

CHECK_DEADLOCK FALSE
VIEW View
