SPECIFICATION Spec
INVARIANT Once
CHECK_DEADLOCK FALSE
