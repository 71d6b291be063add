SPECIFICATION Spec
INVARIANTS Arithmetic Usable Useless
CHECK_DEADLOCK FALSE
CONSTANTS
    Words = {1, 2, 4, 8, 16, 64}
    MaxPage = 12
    MaxAddr = 140
