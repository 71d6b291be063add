CONSTANTS
  NP = 2
  CAP = 38
  HW = 8
  KLen <- K1
  VLen <- Vb2
  Word = 1
  Wrong = ""
  Crashes = 99
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
