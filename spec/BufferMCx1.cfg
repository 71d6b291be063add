SPECIFICATION Spec
CONSTANTS
  NIDS = 4
  CAP = 7
  Ticket = FALSE
  SignalFirst = FALSE
  SignalEmpty = FALSE
  Sticky = FALSE
  Faults = FALSE
  Calls = {"drain1", "drain", "wdrain", "wait", "pop", "peek"}
  FlashMax = 9
INVARIANT NoViol
INVARIANT Ordered
INVARIANT Once
INVARIANT NotLost

CHECK_DEADLOCK FALSE
VIEW View
