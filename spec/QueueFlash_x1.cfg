CONSTANTS
  NP = 2
  CAP = 15
  HW = 4
  Lens <- Le1
  TAGS = 3
  Word = 2
  Masks = {0, 2, 255}
  Over = TRUE
  Wrong = "peek-means-all"
  Crashes = 99
  Emit = FALSE
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
