CONSTANTS
  NP = 2
  CAP = 12
  HW = 1
  KLen <- K1
  VLen <- Vc2
  Word = 8
  Wrong = ""
  Crashes = 99
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
