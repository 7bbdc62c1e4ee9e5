SPECIFICATION Spec
VIEW View
INVARIANT Holds
CHECK_DEADLOCK FALSE
