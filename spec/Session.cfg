SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT Sound
CHECK_DEADLOCK FALSE
