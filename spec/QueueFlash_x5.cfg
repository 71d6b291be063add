CONSTANTS
  NP = 4
  CAP = 14
  HW = 2
  Lens <- N1
  TAGS = 2
  Word = 4
  Masks = {0, 2, 255}
  Over = TRUE
  Wrong = "youngest-from-zero"
  Crashes = 99
  Emit = FALSE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
