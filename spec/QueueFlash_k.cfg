CONSTANTS
  NP = 3
  CAP = 14
  HW = 2
  Lens <- N1
  TAGS = 3
  Word = 4
  Masks = {0, 2, 255}
  Over = TRUE
  Wrong = ""
  Crashes = 99
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
