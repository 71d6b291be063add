SPECIFICATION Spec
INVARIANTS Arithmetic Usable Useless
CHECK_DEADLOCK FALSE
CONSTANTS
    Words = {1, 2, 8}
    MaxPage = 12
    MaxAddr = 28
