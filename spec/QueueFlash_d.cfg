CONSTANTS
  NP = 1
  CAP = 38
  HW = 8
  Lens <- Lb2
  TAGS = 3
  Word = 1
  Masks = {0, 2, 255}
  Over = TRUE
  Wrong = ""
  Crashes = 99
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
