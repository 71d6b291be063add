CONSTANTS
  W = 1
  R = 1
  P = 28
  Unit = 1
  Datas = {6, 7}
  MaxItems = 2
  EarlyReuse = TRUE
SPECIFICATION Spec
INVARIANT Atomic
INVARIANT Appends
INVARIANT Blank

CHECK_DEADLOCK FALSE
