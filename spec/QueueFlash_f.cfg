CONSTANTS
  NP = 2
  CAP = 12
  HW = 1
  Lens <- Lf1
  TAGS = 3
  Word = 8
  Masks = {0, 2, 255}
  Over = TRUE
  Wrong = ""
  Crashes = 99
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
