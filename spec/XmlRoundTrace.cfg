SPECIFICATION TSpec
CONSTANT Docs = {}
CONSTANT ObjSeqs = {}
CONSTANT N = 0
INVARIANT Accepted
VIEW View
CHECK_DEADLOCK FALSE
