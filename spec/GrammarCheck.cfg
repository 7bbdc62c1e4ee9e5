SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Agree Shape Order Ids AnyBreak Bounded
