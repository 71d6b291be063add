CONSTANTS
  W = 8
  R = 1
  P = 80
  Unit = 8
  Datas = {0, 4, 5}
  MaxItems = 3
  EarlyReuse = FALSE
SPECIFICATION Spec
INVARIANT Atomic
INVARIANT Appends
INVARIANT Blank
CHECK_DEADLOCK FALSE
