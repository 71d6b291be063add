SPECIFICATION Spec
CONSTANTS NK = 2
          NV = 2
INVARIANT Explained
CHECK_DEADLOCK FALSE
