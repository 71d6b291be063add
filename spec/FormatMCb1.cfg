CONSTANTS
  W = 1
  R = 1
  P = 40
  Unit = 100
  Datas = {0, 2, 3, 5}
  MaxItems = 3
  EarlyReuse = FALSE
SPECIFICATION Spec
INVARIANT Atomic
INVARIANT Appends
INVARIANT Blank
INVARIANT Bits
INVARIANT Marks
CHECK_DEADLOCK FALSE
