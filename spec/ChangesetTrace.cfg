SPECIFICATION TSpec
CONSTANT Docs = {}
CONSTANT Readers = {}
CONSTANT Cut = FALSE
INVARIANTS Accepted Complete TruePrefix TagsAlone NothingOutside
VIEW View
CHECK_DEADLOCK FALSE
