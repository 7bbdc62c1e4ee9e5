SPECIFICATION Spec
VIEW View
INVARIANT Agree
CHECK_DEADLOCK FALSE
