CONSTANTS
  W = 4
  R = 4
  P = 56
  Unit = 100
  Datas = {0, 2, 3, 5}
  MaxItems = 3
  EarlyReuse = FALSE
SPECIFICATION Spec
INVARIANT Atomic
INVARIANT Appends
INVARIANT Blank
INVARIANT Bits
INVARIANT Marks
CHECK_DEADLOCK FALSE
