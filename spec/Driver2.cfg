SPECIFICATION Spec
CONSTANT Level = 2
INVARIANTS TypeOK OkMeansDone NoStale ObjNeedsNoCompiler
CHECK_DEADLOCK FALSE
