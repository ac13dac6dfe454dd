SPECIFICATION Spec
CONSTANT Level = 1
INVARIANTS TypeOK OkMeansDone NoStale ObjNeedsNoCompiler
CHECK_DEADLOCK FALSE
