CONSTANTS
  NP = 3
  CAP = 15
  HW = 4
  KLen <- K1
  VLen <- Ve2
  Word = 2
  Wrong = ""
  Crashes = 99
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
