CONSTANTS
  W = 4
  R = 4
  P = 40
  Unit = 1
  Datas = {0, 2}
  MaxItems = 2
  EarlyReuse = FALSE
SPECIFICATION Spec
INVARIANT Atomic
INVARIANT Appends
INVARIANT Blank

CHECK_DEADLOCK FALSE
