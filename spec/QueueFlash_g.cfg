CONSTANTS
  NP = 2
  CAP = 6
  HW = 1
  Lens <- Ld2
  TAGS = 2
  Word = 32
  Masks = {0, 2, 255}
  Over = TRUE
  Wrong = ""
  Crashes = 99
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
