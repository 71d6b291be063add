CONSTANTS
  NP = 2
  CAP = 6
  HW = 1
  KLen <- K1
  VLen <- Vd2
  Word = 32
  Wrong = ""
  Crashes = 99
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
