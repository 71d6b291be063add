CONSTANTS
  NP = 2
  CAP = 14
  HW = 2
  KLen <- K1
  VLen <- Va2
  Word = 4
  Wrong = "repair-keeps-target"
  Crashes = 99
  Emit = FALSE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
