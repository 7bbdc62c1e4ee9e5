SPECIFICATION Spec
VIEW View
INVARIANT Conforms
CHECK_DEADLOCK FALSE
