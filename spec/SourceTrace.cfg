SPECIFICATION Spec
VIEW View
INVARIANTS Conforms Independent
CHECK_DEADLOCK FALSE
