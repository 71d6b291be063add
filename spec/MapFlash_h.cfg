CONSTANTS
  NP = 3
  CAP = 14
  HW = 2
  KLen <- K1
  VLen <- Va1
  Word = 4
  Wrong = ""
  Crashes = 99
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
