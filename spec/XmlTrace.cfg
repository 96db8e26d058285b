SPECIFICATION TSpec
CONSTANT Docs = {}
INVARIANTS Accepted InOrder NoLeak
VIEW View
CHECK_DEADLOCK FALSE
