SPECIFICATION Spec
INVARIANT Permitted
VIEW View
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
