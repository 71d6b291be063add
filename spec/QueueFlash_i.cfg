CONSTANTS
  NP = 3
  CAP = 14
  HW = 2
  Lens <- M1
  TAGS = 3
  Word = 4
  Masks = {0, 255}
  Over = TRUE
  Wrong = ""
  Crashes = 0
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
