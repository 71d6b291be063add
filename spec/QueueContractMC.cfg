SPECIFICATION Spec
CONSTANTS MaxPush = 4
INVARIANTS InOrder NeverBack NoLoss
CHECK_DEADLOCK FALSE
