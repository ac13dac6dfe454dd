SPECIFICATION Spec
VIEW View
INVARIANT Invariant
CHECK_DEADLOCK FALSE
