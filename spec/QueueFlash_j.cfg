CONSTANTS
  NP = 4
  CAP = 38
  HW = 8
  Lens <- Lb1
  TAGS = 3
  Word = 1
  Masks = {0, 255}
  Over = TRUE
  Wrong = ""
  Crashes = 0
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
