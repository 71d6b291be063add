CONSTANTS
  W = 8
  R = 1
  P = 96
  Unit = 100
  Datas = {0, 2, 4, 5}
  MaxItems = 4
  EarlyReuse = FALSE
SPECIFICATION Spec
INVARIANT Atomic
INVARIANT Appends
INVARIANT Blank
INVARIANT Bits
INVARIANT Marks
CHECK_DEADLOCK FALSE
